From f2b55e559419c725201cfc7334705b51009ebdb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:57:39 +0000
Subject: [PATCH 01/67] fix: supply both arguments of the Cxyfile parse error
 and the declared width of its index

---
 src/cxy/driver/cxyfile.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cxy/driver/cxyfile.c b/src/cxy/driver/cxyfile.c
index adc7cc3..fe0ef82 100644
--- a/src/cxy/driver/cxyfile.c
+++ b/src/cxy/driver/cxyfile.c
@@ -201,7 +201,7 @@ bool loadCxyfile(CompilerDriver *cc, cstring path)
         logError(cc->L,
                  NULL,
                  "parsing '{s}' failed: {s}",
-                 (FormatArg[]){{.s = except}});
+                 (FormatArg[]){{.s = path}, {.s = except}});
         return false;
     }
 
@@ -226,7 +226,7 @@ bool loadCxyfile(CompilerDriver *cc, cstring path)
                 logError(cc->L,
                          builtinLoc(),
                          "invalid binary declaration #{i32}",
-                         (FormatArg[]){{.i = i}});
+                         (FormatArg[]){{.i32 = i}});
                 return false;
             }
             if (!loadCxyfileBinary(cc, &cc->package, bin))
-- 
2.43.0


From eac1cf9507b3c45c9ab8d4ffe58ac6d3d253db9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:57:39 +0000
Subject: [PATCH 02/67] fix: do not use the command line error text as a format
 string

---
 src/cxy/driver/options.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cxy/driver/options.c b/src/cxy/driver/options.c
index 0bf43e5..dfc8bf6 100644
--- a/src/cxy/driver/options.c
+++ b/src/cxy/driver/options.c
@@ -480,7 +480,7 @@ bool parseCommandLineOptions(
         goto error;
     }
     else if (selected == -1) {
-        logError(log, NULL, P->error, NULL);
+        logError(log, NULL, "{s}", (FormatArg[]){{.s = P->error}});
         goto error;
     }
 
-- 
2.43.0


From 3e9fed6d95483a410c7ee3b1e4c1a7f42ad83bbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:57:50 +0000
Subject: [PATCH 03/67] fix: placeholders of comptime index, member and loop
 diagnostics

---
 src/cxy/lang/middle/eval/for.c    | 2 +-
 src/cxy/lang/middle/eval/index.c  | 4 ++--
 src/cxy/lang/middle/eval/member.c | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/cxy/lang/middle/eval/for.c b/src/cxy/lang/middle/eval/for.c
index ba9cd03..ca31e1e 100644
--- a/src/cxy/lang/middle/eval/for.c
+++ b/src/cxy/lang/middle/eval/for.c
@@ -241,7 +241,7 @@ void evalForStmt(AstVisitor *visitor, AstNode *node)
                      &rangeLoc,
                      "`#for` loop range expression is not comptime iterable, "
                      "parameter '{s}' is not variadic",
-                     NULL);
+                     (FormatArg[]){{.s = node->forStmt.range->ident.value}});
             node->tag = astError;
             return;
         }
diff --git a/src/cxy/lang/middle/eval/index.c b/src/cxy/lang/middle/eval/index.c
index 5880db7..160844e 100644
--- a/src/cxy/lang/middle/eval/index.c
+++ b/src/cxy/lang/middle/eval/index.c
@@ -14,7 +14,7 @@ static bool evalAstNodeAtIndex(EvalContext *ctx,
     if (atIndex == NULL) {
         logError(ctx->L,
                  &node->loc,
-                 "index {0} is out of bounds, target has {u64} elements",
+                 "index {i64} is out of bounds, target has {u64} elements",
                  (FormatArg[]){{.i64 = index}, {.u64 = countAstNodes(list)}});
         node->tag = astError;
         return false;
@@ -83,7 +83,7 @@ static bool evalIntegerIndexExpr(EvalContext *ctx, AstNode *node)
         logError(ctx->L,
                  &node->loc,
                  "index out of bounds for comp-time index "
-                 "expression, requested index '{i64}', expecting '< {u64'}",
+                 "expression, requested index '{i64}', expecting '< {u64}'",
                  (FormatArg[]){{.i64 = i}, {.u64 = len}});
 
         node->tag = astError;
diff --git a/src/cxy/lang/middle/eval/member.c b/src/cxy/lang/middle/eval/member.c
index 401fdb1..46ebacb 100644
--- a/src/cxy/lang/middle/eval/member.c
+++ b/src/cxy/lang/middle/eval/member.c
@@ -27,7 +27,7 @@ static bool evalIntegerMemberExpr(EvalContext *ctx, AstNode *node)
         logError(ctx->L,
                  &node->loc,
                  "member out of bounds for comp-time integer member "
-                 "expression, requested index '{i64}', expecting '< {u64'}",
+                 "expression, requested index '{i64}', expecting '< {u64}'",
                  (FormatArg[]){{.i64 = i}, {.u64 = len}});
 
         node->tag = astError;
-- 
2.43.0


From a0f58f5d06209cc4c3a196c5a211215ac56a5ccb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:58:07 +0000
Subject: [PATCH 04/67] fix: escape literal braces and add missing ones in
 diagnostics and printed types

---
 src/cxy/lang/frontend/parser.c   | 2 +-
 src/cxy/lang/frontend/types.c    | 2 +-
 src/cxy/lang/middle/sema/check.c | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/cxy/lang/frontend/parser.c b/src/cxy/lang/frontend/parser.c
index 1ed0623..2624d83 100644
--- a/src/cxy/lang/frontend/parser.c
+++ b/src/cxy/lang/frontend/parser.c
@@ -1686,7 +1686,7 @@ static AstNode *substitute(Parser *P, bool allowStructs)
     if (match(P, tokHash, tokSubstitutue)) {
         parserError(P,
                     &previous(P)->fileLoc,
-                    "compile time markers `#` or `#{` cannot be used in "
+                    "compile time markers `#` or `#{{` cannot be used in "
                     "current context",
                     NULL);
     }
diff --git a/src/cxy/lang/frontend/types.c b/src/cxy/lang/frontend/types.c
index ee82b27..f4099d2 100644
--- a/src/cxy/lang/frontend/types.c
+++ b/src/cxy/lang/frontend/types.c
@@ -924,7 +924,7 @@ void printType_(FormatState *state, const Type *type, bool keyword)
         format(state, "]", NULL);
         break;
     case typMap:
-        format(state, "{[", NULL);
+        format(state, "{{[", NULL);
         printType_(state, type->map.key, keyword);
         format(state, "]: ", NULL);
         printType_(state, type->map.value, keyword);
diff --git a/src/cxy/lang/middle/sema/check.c b/src/cxy/lang/middle/sema/check.c
index 4f2fa9e..2345781 100644
--- a/src/cxy/lang/middle/sema/check.c
+++ b/src/cxy/lang/middle/sema/check.c
@@ -321,7 +321,7 @@ static void checkYieldStmt(AstVisitor *visitor, AstNode *node)
         logError(ctx->L,
                  &node->loc,
                  "inconsistent yield type, expecting `{t}` (deduced from first "
-                 "yield expression) got `t`",
+                 "yield expression) got `{t}`",
                  (FormatArg[]){{.t = block->type}, {.t = type}});
         node->type = ERROR_TYPE(ctx);
         return;
-- 
2.43.0


From 7d3ee07f0025cd32522f4c886fea4e6f7c15584d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:58:08 +0000
Subject: [PATCH 05/67] fix: check the step of a range expression, not its end
 twice

---
 src/cxy/lang/middle/sema/for.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/cxy/lang/middle/sema/for.c b/src/cxy/lang/middle/sema/for.c
index da96f7f..67e52a7 100644
--- a/src/cxy/lang/middle/sema/for.c
+++ b/src/cxy/lang/middle/sema/for.c
@@ -336,13 +336,13 @@ void checkRangeExpr(AstVisitor *visitor, AstNode *node)
     }
 
     if (node->rangeExpr.step) {
-        const Type *step = checkType(visitor, node->rangeExpr.end);
+        const Type *step = checkType(visitor, node->rangeExpr.step);
         if (!isNumericType(step)) {
             logError(ctx->L,
-                     &node->rangeExpr.start->loc,
+                     &node->rangeExpr.step->loc,
                      "`range` step type '{t}' is not supported, expecting a "
                      "numeric type",
-                     (FormatArg[]){{.t = start}, {.t = end}});
+                     (FormatArg[]){{.t = step}});
             node->type = ERROR_TYPE(ctx);
             return;
         }
-- 
2.43.0


From a5f087cd8ecbc4265b77a9d097a1848b5719c51c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:58:08 +0000
Subject: [PATCH 06/67] fix: mangle float and string literals with their full
 index

---
 src/cxy/lang/middle/mangle.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cxy/lang/middle/mangle.c b/src/cxy/lang/middle/mangle.c
index d5a99d1..2e0333d 100644
--- a/src/cxy/lang/middle/mangle.c
+++ b/src/cxy/lang/middle/mangle.c
@@ -31,10 +31,10 @@ static void mangleAstNode(FormatState *state, const AstNode *node, u64 idx)
                    (FormatArg[]){{.u64 = node->intLiteral.uValue}});
         break;
     case astFloatLit:
-        format(state, "Lf_{u64}", (FormatArg[]){{.c = idx}});
+        format(state, "Lf_{u64}", (FormatArg[]){{.u64 = idx}});
         break;
     case astStringLit:
-        format(state, "Ls_{u64}", (FormatArg[]){{.c = idx}});
+        format(state, "Ls_{u64}", (FormatArg[]){{.u64 = idx}});
         break;
     default:
         unreachable("TODO");
-- 
2.43.0


From d6f23c3664457de9779e26f76ab853257aff49b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:58:08 +0000
Subject: [PATCH 07/67] fix: reset the style, not the end row, after a
 single-position diagnostic location

---
 src/cxy/core/log.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cxy/core/log.c b/src/cxy/core/log.c
index d1f4a5f..936b28f 100644
--- a/src/cxy/core/log.c
+++ b/src/cxy/core/log.c
@@ -340,7 +340,7 @@ static void printDiagnosticToState(FormatState *state,
         format(state,
                memcmp(&diag->loc.begin, &diag->loc.end, sizeof(diag->loc.begin))
                    ? "  in {$}{s}:{u32}:{u32} (to {u32}:{u32}){$}\n"
-                   : "  in {$}{s}:{u32}:{u32}{$}\n",
+                   : "  in {$}{s}:{u32}:{u32}{6:$}\n",
                (FormatArg[]){{.style = locStyle},
                              {.s = diag->loc.fileName},
                              {.u32 = diag->loc.begin.row},
-- 
2.43.0


From c77d64bb3ca12495fc41e169a36cdcf615c2addc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:59:07 +0000
Subject: [PATCH 08/67] fix: print names as text rather than as format strings

---
 src/cxy/lang/frontend/types.c  | 2 +-
 src/cxy/lang/middle/dump/cxy.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cxy/lang/frontend/types.c b/src/cxy/lang/frontend/types.c
index f4099d2..04be814 100644
--- a/src/cxy/lang/frontend/types.c
+++ b/src/cxy/lang/frontend/types.c
@@ -79,7 +79,7 @@ static void printGenericType(FormatState *state, const Type *type)
         if (i != 0)
             format(state, ", ", NULL);
         if (type->generic.params)
-            format(state, type->generic.params[i].name, NULL);
+            appendString(state, type->generic.params[i].name);
         else
             format(state, "NULL", NULL);
     }
diff --git a/src/cxy/lang/middle/dump/cxy.c b/src/cxy/lang/middle/dump/cxy.c
index a571b66..7c08aeb 100644
--- a/src/cxy/lang/middle/dump/cxy.c
+++ b/src/cxy/lang/middle/dump/cxy.c
@@ -951,7 +951,7 @@ static void dumpVarDecl(ConstAstVisitor *visitor, const AstNode *node)
     if (node->varDecl.names)
         dumpManyAstNodes(visitor, node->varDecl.names, ", ");
     else
-        format(ctx->state, node->varDecl.name, NULL);
+        appendString(ctx->state, node->varDecl.name);
 
     if (node->varDecl.type) {
         format(ctx->state, ": ", NULL);
-- 
2.43.0


From 1e64043181d193abe6d6ac2870ac499e99d4a202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:22 +0000
Subject: [PATCH 09/67] fix: stop lexing literals at the end of the input

---
 src/cxy/lang/frontend/lexer.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/cxy/lang/frontend/lexer.c b/src/cxy/lang/frontend/lexer.c
index 7385a4b..ccf581b 100644
--- a/src/cxy/lang/frontend/lexer.c
+++ b/src/cxy/lang/frontend/lexer.c
@@ -147,8 +147,8 @@ static inline bool isSpaceOrPunctuation(char c)
 
 static void skipUntilSpaceOrPunctuation(Lexer *lexer)
 {
-    while (!isSpaceOrPunctuation(getCurChar(lexer)))
-        advanceLexer(lexer);
+    while (!isEofReached(lexer) && !isSpaceOrPunctuation(getCurChar(lexer)))
+        skipChar(lexer);
 }
 
 static bool acceptChar(Lexer *lexer, char c)
@@ -477,7 +477,7 @@ Token advanceLexer(Lexer *lexer)
 
             parsingStringLiteral = true;
         lexerLexString:
-            while (getCurChar(lexer) != '\"') {
+            while (!isEofReached(lexer) && getCurChar(lexer) != '\"') {
                 if (acceptChar(lexer, '\n')) {
                     // Backslash to continue string on another line
                     if (acceptChar(lexer, '\\'))
@@ -520,7 +520,8 @@ Token advanceLexer(Lexer *lexer)
         if (acceptChar(lexer, '\'')) {
             const char *ptr = getCurPtr(lexer);
             size_t charCount = 0;
-            for (; getCurChar(lexer) != '\'' && getCurChar(lexer) != '\n';
+            for (; !isEofReached(lexer) && getCurChar(lexer) != '\'' &&
+                   getCurChar(lexer) != '\n';
                  charCount++) {
                 if (getCurChar(lexer) == '\\') {
                     skipChar(lexer);
-- 
2.43.0


From 3242c3236f2cd4e1c628b9342f784f011d8f0f7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:22 +0000
Subject: [PATCH 10/67] fix: do not leave parser try blocks with break or
 return

---
 src/cxy/lang/frontend/parser.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/cxy/lang/frontend/parser.c b/src/cxy/lang/frontend/parser.c
index 2624d83..68510da 100644
--- a/src/cxy/lang/frontend/parser.c
+++ b/src/cxy/lang/frontend/parser.c
@@ -1397,8 +1397,8 @@ static AstNode *block(Parser *P)
                 listAddAstNode(&stmts, statement(P, false));
                 match(P, tokSemicolon);
             } E4C_CATCH(ParserException) {
+                // leaves the loop, a `break` here would leak the try frame
                 synchronizeUntil(P, tokRBrace);
-                break;
             })
     }
     consume0(P, tokRBrace);
@@ -3679,6 +3679,7 @@ AstNode *parseProgram(Parser *P)
     AstNodeList decls = {NULL};
     AstNode *module = NULL;
     AstNodeList topLevel = {NULL};
+    volatile bool aborted = false;
 
     if (check(P, tokModule))
         module = parseModuleDecl(P);
@@ -3695,7 +3696,11 @@ AstNode *parseProgram(Parser *P)
                     listAddAstNode(&topLevel, node);
             } E4C_CATCH(ParserException) {
                 synchronize(E4C_EXCEPTION.ctx);
-            } E4C_CATCH(ParserAbort) { return NULL; })
+            } E4C_CATCH(ParserAbort) { aborted = true; })
+
+        // do not return from within the try block, that leaks its frame
+        if (aborted)
+            return NULL;
     }
 
     while (!isEoF(P)) {
-- 
2.43.0


From 09772558cf027f26ece27410624ceb88d68f01bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:24:35 +0000
Subject: [PATCH 11/67] fix: catch every parser exception inside the parser's
 entry points

---
 src/cxy/lang/frontend/parser.c | 44 ++++++++++++++++++++++++++++++----
 1 file changed, 39 insertions(+), 5 deletions(-)

diff --git a/src/cxy/lang/frontend/parser.c b/src/cxy/lang/frontend/parser.c
index 68510da..5ec7119 100644
--- a/src/cxy/lang/frontend/parser.c
+++ b/src/cxy/lang/frontend/parser.c
@@ -3665,14 +3665,23 @@ Parser makeParser(Lexer *lexer, CompilerDriver *cc, bool testMode)
                      .memPool = cc->pool,
                      .strPool = cc->strings,
                      .testMode = testMode};
-    parser.ahead[0] = (Token){.tag = tokEoF};
-    for (u32 i = 1; i < TOKEN_BUFFER; i++)
-        parser.ahead[i] = advanceLexer_(&parser);
+    const Token eof = {.tag = tokEoF, .buffer = lexer->buffer};
+    for (u32 i = 0; i < TOKEN_BUFFER; i++)
+        parser.ahead[i] = eof;
+
+    // an `include` directive among the first tokens can fail
+    E4C_TRY_BLOCK(
+        {
+            for (u32 i = 1; i < TOKEN_BUFFER; i++)
+                parser.ahead[i] = advanceLexer_(&parser);
+        } E4C_CATCH(ParserException) {
+            parser.ahead[1] = eof;
+        } E4C_CATCH(ParserAbort) { parser.ahead[1] = eof; })
 
     return parser;
 }
 
-AstNode *parseProgram(Parser *P)
+static AstNode *program(Parser *P)
 {
     Token tok = *current(P);
 
@@ -3720,4 +3729,29 @@ AstNode *parseProgram(Parser *P)
                                              .decls = decls.first}});
 }
 
-AstNode *parseExpression(Parser *P) { return expression(P, false); }
+AstNode *parseProgram(Parser *P)
+{
+    // a bad module declaration or include has been reported when it gets here
+    AstNode *volatile node = NULL;
+    E4C_TRY_BLOCK(
+        {
+            node = program(P);
+        } E4C_CATCH(ParserException) {
+            node = NULL;
+        } E4C_CATCH(ParserAbort) { node = NULL; })
+
+    return node;
+}
+
+AstNode *parseExpression(Parser *P)
+{
+    AstNode *volatile node = NULL;
+    E4C_TRY_BLOCK(
+        {
+            node = expression(P, false);
+        } E4C_CATCH(ParserException) {
+            node = NULL;
+        } E4C_CATCH(ParserAbort) { node = NULL; })
+
+    return node;
+}
-- 
2.43.0


From 0d51dbae915de67f2e5aef5b5f3be44c94436d29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:25:50 +0000
Subject: [PATCH 12/67] fix: report every module or include path that cannot be
 resolved, within the path buffer

---
 src/cxy/driver/driver.c | 61 +++++++++++++++++++++--------------------
 1 file changed, 31 insertions(+), 30 deletions(-)

diff --git a/src/cxy/driver/driver.c b/src/cxy/driver/driver.c
index 60a68a0..682147f 100644
--- a/src/cxy/driver/driver.c
+++ b/src/cxy/driver/driver.c
@@ -344,48 +344,49 @@ static cstring getModuleLocation(CompilerDriver *driver,
     cstring importer = source->loc.fileName,
             modulePath = source->stringLiteral.value;
     csAssert0(modulePath && modulePath[0] != '\0');
-    char path[PATH_MAX];
-    u64 modulePathLen = strlen(modulePath);
-    if (modulePath[0] == '.' && modulePath[1] == '/') {
+    char path[PATH_MAX], resolved[PATH_MAX];
+    int len;
+    bool isLocal = modulePath[0] == '.' && modulePath[1] == '/';
+    if (isLocal) {
         cstring importerFilename = strrchr(importer, '/');
         if (importerFilename == NULL)
             return modulePath;
-        size_t importedLen = (importerFilename - importer) + 1;
-        modulePathLen -= 2;
-        memcpy(path, importer, importedLen);
-        memcpy(&path[importedLen], modulePath + 2, modulePathLen);
-        path[importedLen + modulePathLen] = '\0';
-        char tmp[PATH_MAX];
-        return makeString(driver->strings, realpath(path, tmp));
-    }
-    else if (!isInclude && driver->options.libDir != NULL) {
-        char tmp[PATH_MAX];
-        u64 libDirLen = strlen(driver->options.libDir);
-        memcpy(path, driver->options.libDir, libDirLen);
-        if (driver->options.libDir[libDirLen - 1] != '/')
-            path[libDirLen++] = '/';
-        memcpy(&path[libDirLen], modulePath, modulePathLen);
-        path[libDirLen + modulePathLen] = '\0';
-        return makeString(driver->strings, realpath(path, tmp));
+        len = snprintf(path,
+                       sizeof(path),
+                       "%.*s%s",
+                       (int)(importerFilename - importer) + 1,
+                       importer,
+                       modulePath + 2);
     }
     else {
-        char tmp[PATH_MAX];
-        memcpy(path, driver->currentDir, driver->currentDirLen);
-        if (driver->currentDir[driver->currentDirLen - 1] != '/')
-            path[driver->currentDirLen] = '/';
-        memcpy(&path[driver->currentDirLen + 1], modulePath, modulePathLen);
-        path[driver->currentDirLen + 1 + modulePathLen] = '\0';
-        if (realpath(path, tmp) == NULL) {
+        cstring dir = driver->currentDir;
+        if (!isInclude && driver->options.libDir != NULL)
+            dir = driver->options.libDir;
+        size_t dirLen = strlen(dir);
+        len = snprintf(path,
+                       sizeof(path),
+                       "%s%s%s",
+                       dir,
+                       dirLen && dir[dirLen - 1] == '/' ? "" : "/",
+                       modulePath);
+    }
+
+    if (len < 0 || len >= sizeof(path) || realpath(path, resolved) == NULL) {
+        if (isLocal)
+            logError(driver->L,
+                     &source->loc,
+                     "module/include path '{s}' not found",
+                     (FormatArg[]){{.s = modulePath}});
+        else
             logError(
                 driver->L,
                 &source->loc,
                 "stdlib module/include path '{s}' not found, perhaps "
                 "import/include a local module with relative path './{s}' ",
                 (FormatArg[]){{.s = modulePath}, {.s = modulePath}});
-            return NULL;
-        }
-        return makeString(driver->strings, tmp);
+        return NULL;
     }
+    return makeString(driver->strings, resolved);
 }
 
 cstring getIncludeFileLocation(CompilerDriver *driver,
-- 
2.43.0


From de8c308892af3c9c554b92c2ade4e9f70309a453 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:33 +0000
Subject: [PATCH 13/67] fix: diagnose comptime division by zero instead of
 crashing

---
 src/cxy/lang/middle/eval/binary.c         | 38 +++++++++++++++++------
 src/cxy/lang/middle/preprocess/evaluate.c | 38 +++++++++++++++++------
 2 files changed, 58 insertions(+), 18 deletions(-)

diff --git a/src/cxy/lang/middle/eval/binary.c b/src/cxy/lang/middle/eval/binary.c
index 0a056f8..bd600d5 100644
--- a/src/cxy/lang/middle/eval/binary.c
+++ b/src/cxy/lang/middle/eval/binary.c
@@ -181,6 +181,21 @@ static void evalMulOperation(EvalContext *ctx, AstNode *node)
     nodeSetNumericLiteral(node, lhs, rhs, value);
 }
 
+static bool checkDivisor(EvalContext *ctx, AstNode *node)
+{
+    const AstNode *rhs = node->binaryExpr.rhs;
+    if (nodeIs(rhs, FloatLit) || (i64)nodeGetNumericLiteral(rhs) != 0)
+        return true;
+
+    logError(ctx->L,
+             &node->loc,
+             "comp-time operator `{s}` cannot divide by zero",
+             (FormatArg[]){{.s = getBinaryOpString(node->binaryExpr.op)}});
+
+    node->tag = astError;
+    return false;
+}
+
 static void evalDivOperation(EvalContext *ctx, AstNode *node)
 {
     AstNode *lhs = node->binaryExpr.lhs, *rhs = node->binaryExpr.rhs;
@@ -214,10 +229,12 @@ static void evalDivOperation(EvalContext *ctx, AstNode *node)
         node->floatLiteral.value =
             nodeGetNumericLiteral(lhs) / nodeGetNumericLiteral(rhs);
     }
-    else {
-        i64 value =
-            (i64)nodeGetNumericLiteral(lhs) / (i64)nodeGetNumericLiteral(rhs);
-        nodeSetNumericLiteral(node, lhs, rhs, (f64)value);
+    else if (checkDivisor(ctx, node)) {
+        i64 dividend = (i64)nodeGetNumericLiteral(lhs),
+            divisor = (i64)nodeGetNumericLiteral(rhs);
+        // the quotient of the smallest integer and -1 is out of range
+        f64 value = divisor == -1 ? -(f64)dividend : (f64)(dividend / divisor);
+        nodeSetNumericLiteral(node, lhs, rhs, value);
     }
 }
 
@@ -244,11 +261,14 @@ static void evalModOperation(EvalContext *ctx, AstNode *node)
         return;
     }
 
-    nodeSetNumericLiteral(node,
-                          lhs,
-                          rhs,
-                          (f64)((i64)nodeGetNumericLiteral(lhs) %
-                                (i64)nodeGetNumericLiteral(rhs)));
+    if (!checkDivisor(ctx, node))
+        return;
+
+    i64 dividend = (i64)nodeGetNumericLiteral(lhs),
+        divisor = (i64)nodeGetNumericLiteral(rhs);
+    // dividing the smallest integer by -1 overflows
+    f64 value = divisor == -1 ? 0 : (f64)(dividend % divisor);
+    nodeSetNumericLiteral(node, lhs, rhs, value);
 }
 
 static bool checkBinaryBitOperation(EvalContext *ctx, AstNode *node)
diff --git a/src/cxy/lang/middle/preprocess/evaluate.c b/src/cxy/lang/middle/preprocess/evaluate.c
index 1506f60..a07ded9 100644
--- a/src/cxy/lang/middle/preprocess/evaluate.c
+++ b/src/cxy/lang/middle/preprocess/evaluate.c
@@ -64,6 +64,21 @@ static void evalMulOperation(PreprocessorContext *ctx, AstNode *node)
     nodeSetNumericLiteral(node, lhs, rhs, value);
 }
 
+static bool checkDivisor(PreprocessorContext *ctx, AstNode *node)
+{
+    const AstNode *rhs = node->binaryExpr.rhs;
+    if (nodeIs(rhs, FloatLit) || (i64)nodeGetNumericLiteral(rhs) != 0)
+        return true;
+
+    logError(ctx->L,
+             &node->loc,
+             "comp-time operator `{s}` cannot divide by zero",
+             (FormatArg[]){{.s = getBinaryOpString(node->binaryExpr.op)}});
+
+    node->tag = astError;
+    return false;
+}
+
 static void evalDivOperation(PreprocessorContext *ctx, AstNode *node)
 {
     AstNode *lhs = node->binaryExpr.lhs, *rhs = node->binaryExpr.rhs;
@@ -88,10 +103,12 @@ static void evalDivOperation(PreprocessorContext *ctx, AstNode *node)
         node->floatLiteral.value =
             nodeGetNumericLiteral(lhs) / nodeGetNumericLiteral(rhs);
     }
-    else {
-        i64 value =
-            (i64)nodeGetNumericLiteral(lhs) / (i64)nodeGetNumericLiteral(rhs);
-        nodeSetNumericLiteral(node, lhs, rhs, (f64)value);
+    else if (checkDivisor(ctx, node)) {
+        i64 dividend = (i64)nodeGetNumericLiteral(lhs),
+            divisor = (i64)nodeGetNumericLiteral(rhs);
+        // the quotient of the smallest integer and -1 is out of range
+        f64 value = divisor == -1 ? -(f64)dividend : (f64)(dividend / divisor);
+        nodeSetNumericLiteral(node, lhs, rhs, value);
     }
 }
 
@@ -108,11 +125,14 @@ static void evalModOperation(PreprocessorContext *ctx, AstNode *node)
         return;
     }
 
-    nodeSetNumericLiteral(node,
-                          lhs,
-                          rhs,
-                          (f64)((i64)nodeGetNumericLiteral(lhs) %
-                                (i64)nodeGetNumericLiteral(rhs)));
+    if (!checkDivisor(ctx, node))
+        return;
+
+    i64 dividend = (i64)nodeGetNumericLiteral(lhs),
+        divisor = (i64)nodeGetNumericLiteral(rhs);
+    // dividing the smallest integer by -1 overflows
+    f64 value = divisor == -1 ? 0 : (f64)(dividend % divisor);
+    nodeSetNumericLiteral(node, lhs, rhs, value);
 }
 
 static bool checkBinaryBitOperation(PreprocessorContext *ctx, AstNode *node)
-- 
2.43.0


From e33afc5814d8ccdf19f37ca4a9f1e4bb279cbc6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:33 +0000
Subject: [PATCH 14/67] fix: sign of folded integers and truth value of folded
 booleans

---
 src/cxy/lang/middle/eval/literal.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cxy/lang/middle/eval/literal.c b/src/cxy/lang/middle/eval/literal.c
index eaf4757..3d2b4a4 100644
--- a/src/cxy/lang/middle/eval/literal.c
+++ b/src/cxy/lang/middle/eval/literal.c
@@ -50,7 +50,7 @@ void nodeSetNumericLiteral(AstNode *node, AstNode *lhs, AstNode *rhs, f64 value)
     case astBoolLit:
         if (nodeIs(rhs, BoolLit)) {
             node->tag = astBoolLit;
-            node->boolLiteral.value = value == 0;
+            node->boolLiteral.value = value != 0;
         }
         else if (nodeIs(rhs, CharLit) || nodeIs(rhs, IntegerLit)) {
             node->tag = astIntegerLit;
@@ -90,7 +90,7 @@ void nodeSetNumericLiteral(AstNode *node, AstNode *lhs, AstNode *rhs, f64 value)
         }
         else {
             node->tag = astIntegerLit;
-            node->intLiteral.value = (i64)value;
+            node->intLiteral.isNegative = value < 0;
             if (node->intLiteral.isNegative)
                 node->intLiteral.value = (i64)value;
             else
-- 
2.43.0


From 31bcc6a10eb9a934a454af86cc47208b5fddff88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:33 +0000
Subject: [PATCH 15/67] fix: comptime unary operators on floats and bitwise
 complement

---
 src/cxy/lang/middle/eval/unary.c          | 17 +++++++++++------
 src/cxy/lang/middle/preprocess/evaluate.c | 10 ++++++----
 2 files changed, 17 insertions(+), 10 deletions(-)

diff --git a/src/cxy/lang/middle/eval/unary.c b/src/cxy/lang/middle/eval/unary.c
index a8e881e..c79b472 100644
--- a/src/cxy/lang/middle/eval/unary.c
+++ b/src/cxy/lang/middle/eval/unary.c
@@ -44,7 +44,7 @@ static void evalPrefixMinusOperation(EvalContext *ctx, AstNode *node)
         return;
 
     f64 value = -nodeGetNumericLiteral(rhs);
-    if (nodeIs(node, FloatLit)) {
+    if (nodeIs(rhs, FloatLit)) {
         node->tag = astFloatLit;
         node->floatLiteral.value = value;
     }
@@ -65,7 +65,7 @@ static void evalPrefixPlusOperation(EvalContext *ctx, AstNode *node)
         return;
 
     f64 value = +nodeGetNumericLiteral(rhs);
-    if (nodeIs(node, FloatLit)) {
+    if (nodeIs(rhs, FloatLit)) {
         node->tag = astFloatLit;
         node->floatLiteral.value = value;
     }
@@ -82,8 +82,10 @@ static void evalPrefixPlusOperation(EvalContext *ctx, AstNode *node)
 static void evalLogicNotOperation(EvalContext *ctx, AstNode *node)
 {
     AstNode *rhs = node->unaryExpr.operand;
-    if (!evalBooleanCast(ctx, rhs))
+    if (!evalBooleanCast(ctx, rhs)) {
+        node->tag = astError;
         return;
+    }
 
     node->tag = astBoolLit;
     node->boolLiteral.value = !rhs->boolLiteral.value;
@@ -91,7 +93,7 @@ static void evalLogicNotOperation(EvalContext *ctx, AstNode *node)
 
 static void evalBitNotOperation(EvalContext *ctx, AstNode *node)
 {
-    AstNode *rhs = node->binaryExpr.lhs;
+    AstNode *rhs = node->unaryExpr.operand;
     if (!nodeIs(rhs, IntegerLit) && !nodeIs(rhs, CharLit)) {
         logError(ctx->L,
                  &node->loc,
@@ -102,8 +104,10 @@ static void evalBitNotOperation(EvalContext *ctx, AstNode *node)
         return;
     }
 
+    i64 value = ~((i64)nodeGetNumericLiteral(rhs));
     node->tag = astIntegerLit;
-    node->intLiteral.uValue = ~((u64)nodeGetNumericLiteral(rhs));
+    node->intLiteral.value = value;
+    node->intLiteral.isNegative = value < 0;
 }
 
 void evalUnaryExpr(AstVisitor *visitor, AstNode *node)
@@ -120,6 +124,7 @@ void evalUnaryExpr(AstVisitor *visitor, AstNode *node)
                  &node->loc,
                  "postfix unary operator `{s}` is not supported at comptime",
                  (FormatArg[]){{.s = getUnaryOpString(node->unaryExpr.op)}});
+        node->tag = astError;
         return;
     }
 
@@ -133,7 +138,7 @@ void evalUnaryExpr(AstVisitor *visitor, AstNode *node)
     case opNot:
         evalLogicNotOperation(ctx, node);
         break;
-    case opBAnd:
+    case opCompl:
         evalBitNotOperation(ctx, node);
         break;
     default:
diff --git a/src/cxy/lang/middle/preprocess/evaluate.c b/src/cxy/lang/middle/preprocess/evaluate.c
index a07ded9..6108f71 100644
--- a/src/cxy/lang/middle/preprocess/evaluate.c
+++ b/src/cxy/lang/middle/preprocess/evaluate.c
@@ -289,7 +289,7 @@ static void evalPrefixMinusOperation(PreprocessorContext *ctx, AstNode *node)
     AstNode *rhs = node->unaryExpr.operand;
 
     f64 value = -nodeGetNumericLiteral(rhs);
-    if (nodeIs(node, FloatLit)) {
+    if (nodeIs(rhs, FloatLit)) {
         node->tag = astFloatLit;
         node->floatLiteral.value = value;
     }
@@ -307,7 +307,7 @@ static void evalPrefixPlusOperation(PreprocessorContext *ctx, AstNode *node)
 {
     AstNode *rhs = node->unaryExpr.operand;
     f64 value = +nodeGetNumericLiteral(rhs);
-    if (nodeIs(node, FloatLit)) {
+    if (nodeIs(rhs, FloatLit)) {
         node->tag = astFloatLit;
         node->floatLiteral.value = value;
     }
@@ -330,12 +330,14 @@ static void evalLogicNotOperation(PreprocessorContext *ctx, AstNode *node)
 
 static void evalBitNotOperation(PreprocessorContext *ctx, AstNode *node)
 {
-    AstNode *rhs = node->binaryExpr.lhs;
+    AstNode *rhs = node->unaryExpr.operand;
     if (!nodeIs(rhs, IntegerLit) && !nodeIs(rhs, CharLit))
         return;
 
+    i64 value = ~((i64)nodeGetNumericLiteral(rhs));
     node->tag = astIntegerLit;
-    node->intLiteral.uValue = ~((u64)nodeGetNumericLiteral(rhs));
+    node->intLiteral.value = value;
+    node->intLiteral.isNegative = value < 0;
 }
 
 void preprocessorEvalUnaryExpr(PreprocessorContext *ctx, AstNode *node)
-- 
2.43.0


From b036537e7a3d72b8f35204ebae265be6fe9424c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:38 +0000
Subject: [PATCH 16/67] fix: comptime operators that reject their operands mark
 the expression as an error

---
 src/cxy/lang/middle/eval/binary.c         | 11 ++++++++---
 src/cxy/lang/middle/eval/literal.c        |  3 ++-
 src/cxy/lang/middle/preprocess/evaluate.c |  5 +++--
 3 files changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/cxy/lang/middle/eval/binary.c b/src/cxy/lang/middle/eval/binary.c
index bd600d5..662a3ed 100644
--- a/src/cxy/lang/middle/eval/binary.c
+++ b/src/cxy/lang/middle/eval/binary.c
@@ -59,8 +59,12 @@ void evalStringConcatenation(EvalContext *ctx,
 {
     StringBuilder sb;
     stringBuilderInit(&sb);
-    evalStringBuilderAppend(ctx, &sb, lhs);
-    csAssert0(evalStringBuilderAppend(ctx, &sb, rhs));
+    if (!evalStringBuilderAppend(ctx, &sb, lhs) ||
+        !evalStringBuilderAppend(ctx, &sb, rhs)) {
+        stringBuilderDeinit(&sb);
+        node->tag = astError;
+        return;
+    }
 
     char *str = stringBuilderRelease(&sb);
     node->tag = astStringLit;
@@ -110,7 +114,7 @@ static void evalAddOperation(EvalContext *ctx, AstNode *node)
     }
 
     if (nodeIs(lhs, BoolLit) && nodeIs(rhs, BoolLit)) {
-        logWarning(
+        logError(
             ctx->L,
             &node->loc,
             "comp-time addition between boolean operands doesn't make sense",
@@ -444,6 +448,7 @@ static void evalIsOperation(EvalContext *ctx, AstNode *node)
              &node->loc,
              "operator `is` is not a valid comptime operator",
              NULL);
+    node->tag = astError;
 }
 
 CXY_DEFINE_BINARY_EQ_COMP_OPERATOR(Eq, ==)
diff --git a/src/cxy/lang/middle/eval/literal.c b/src/cxy/lang/middle/eval/literal.c
index 3d2b4a4..1876911 100644
--- a/src/cxy/lang/middle/eval/literal.c
+++ b/src/cxy/lang/middle/eval/literal.c
@@ -113,6 +113,7 @@ bool evalBooleanCast(EvalContext *ctx, AstNode *node)
         break;
     case astNullLit:
         node->boolLiteral.value = false;
+        node->tag = astBoolLit;
         break;
     case astCharLit:
         node->boolLiteral.value = node->charLiteral.value != '\0';
@@ -127,7 +128,7 @@ bool evalBooleanCast(EvalContext *ctx, AstNode *node)
         node->tag = astBoolLit;
         break;
     case astStringLit:
-        node->boolLiteral.value = (node->stringLiteral.value == NULL) ||
+        node->boolLiteral.value = (node->stringLiteral.value != NULL) &&
                                   (node->stringLiteral.value[0] != '\0');
         node->tag = astBoolLit;
         break;
diff --git a/src/cxy/lang/middle/preprocess/evaluate.c b/src/cxy/lang/middle/preprocess/evaluate.c
index 6108f71..7262549 100644
--- a/src/cxy/lang/middle/preprocess/evaluate.c
+++ b/src/cxy/lang/middle/preprocess/evaluate.c
@@ -12,7 +12,7 @@ static void evalAddOperation(PreprocessorContext *ctx, AstNode *node)
 {
     AstNode *lhs = node->binaryExpr.lhs, *rhs = node->binaryExpr.rhs;
     if (nodeIs(lhs, BoolLit) && nodeIs(rhs, BoolLit)) {
-        logWarning(
+        logError(
             ctx->L,
             &node->loc,
             "comp-time addition between boolean operands doesn't make sense",
@@ -367,6 +367,7 @@ bool preprocessorAsBoolean(PreprocessorContext *ctx, AstNode *node)
         break;
     case astNullLit:
         node->boolLiteral.value = false;
+        node->tag = astBoolLit;
         break;
     case astCharLit:
         node->boolLiteral.value = node->charLiteral.value != '\0';
@@ -381,7 +382,7 @@ bool preprocessorAsBoolean(PreprocessorContext *ctx, AstNode *node)
         node->tag = astBoolLit;
         break;
     case astStringLit:
-        node->boolLiteral.value = (node->stringLiteral.value == NULL) ||
+        node->boolLiteral.value = (node->stringLiteral.value != NULL) &&
                                   (node->stringLiteral.value[0] != '\0');
         node->tag = astBoolLit;
         break;
-- 
2.43.0


From 07201b744ac74b38d14872cb6fa1f6c1aa621121 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:13 +0000
Subject: [PATCH 17/67] fix: comptime range step check, negative loop values
 and negative integers in strings

---
 src/cxy/lang/middle/eval/binary.c |  5 +++--
 src/cxy/lang/middle/eval/eval.c   |  4 +++-
 src/cxy/lang/middle/eval/for.c    | 12 +++++++++++-
 3 files changed, 17 insertions(+), 4 deletions(-)

diff --git a/src/cxy/lang/middle/eval/binary.c b/src/cxy/lang/middle/eval/binary.c
index 662a3ed..f7820b7 100644
--- a/src/cxy/lang/middle/eval/binary.c
+++ b/src/cxy/lang/middle/eval/binary.c
@@ -29,8 +29,9 @@ bool evalStringBuilderAppend(EvalContext *ctx, StringBuilder *sb, AstNode *node)
         break;
     case astIntegerLit:
         if (node->intLiteral.isNegative)
-            stringBuilderAppendChar(sb, '-');
-        stringBuilderAppendUInt(sb, node->intLiteral.uValue);
+            stringBuilderAppendInt(sb, node->intLiteral.value);
+        else
+            stringBuilderAppendUInt(sb, node->intLiteral.uValue);
         break;
     case astFloatLit:
         stringBuilderAppendFloat(sb, node->floatLiteral.value);
diff --git a/src/cxy/lang/middle/eval/eval.c b/src/cxy/lang/middle/eval/eval.c
index 46a75c2..465962f 100644
--- a/src/cxy/lang/middle/eval/eval.c
+++ b/src/cxy/lang/middle/eval/eval.c
@@ -276,13 +276,15 @@ void evalRangeExpr(AstVisitor *visitor, AstNode *node)
     }
 
     if (!nodeIs(start, IntegerLit) || !nodeIs(end, IntegerLit) ||
-        (step && nodeIs(step, IntegerLit))) {
+        (step && !nodeIs(step, IntegerLit))) {
         logError(
             ctx->L,
             &node->loc,
             "unsupported comp-time operation '..', range start and stop must "
             "be compile time expressions",
             NULL);
+        node->tag = astError;
+        return;
     }
 
     node->next = next;
diff --git a/src/cxy/lang/middle/eval/for.c b/src/cxy/lang/middle/eval/for.c
index ca31e1e..98793d2 100644
--- a/src/cxy/lang/middle/eval/for.c
+++ b/src/cxy/lang/middle/eval/for.c
@@ -178,12 +178,22 @@ static bool evalForStmtWithRange(AstVisitor *visitor,
                    ? integerLiteralValue(range->rangeExpr.step)
                    : 1;
 
+    if (step <= 0) {
+        logError(ctx->L,
+                 &range->loc,
+                 "`#for` loop range step must be greater than zero",
+                 NULL);
+        node->tag = astError;
+        return false;
+    }
+
     for (; i < count; i += step) {
         AstNode *body = deepCloneAstNode(ctx->pool, node->forStmt.body);
         variable->varDecl.init = makeAstNode(
             ctx->pool,
             &range->loc,
-            &(AstNode){.tag = astIntegerLit, .intLiteral.value = i});
+            &(AstNode){.tag = astIntegerLit,
+                       .intLiteral = {.value = i, .isNegative = i < 0}});
 
         if (body) {
             body->parentScope = node->parentScope;
-- 
2.43.0


From 69705e308f6a5d40407284acc8fc66cdff12b6c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:52 +0000
Subject: [PATCH 18/67] fix: initialise string builders before use

---
 src/cxy/core/sb.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/cxy/core/sb.h b/src/cxy/core/sb.h
index f64c089..31f618e 100644
--- a/src/cxy/core/sb.h
+++ b/src/cxy/core/sb.h
@@ -34,6 +34,7 @@ void stringBuilderGrow(StringBuilder *sb, u64 size);
 
 static attr(always_inline) void stringBuilderInit(StringBuilder *sb)
 {
+    memset(sb, 0, sizeof(*sb));
     stringBuilderGrow(sb, __cxy_builtins_string_builder_DEFAULT_CAPACITY);
 }
 
@@ -44,7 +45,7 @@ void stringBuilderDeinit(StringBuilder *sb);
 static attr(always_inline) void stringBuilderDelete(StringBuilder *sb)
 {
     if (sb) {
-        stringBuilderInit(sb);
+        stringBuilderDeinit(sb);
         free(sb);
     }
 }
-- 
2.43.0


From cdabec087746fa930e9b29d7528d427efe87f9d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:52 +0000
Subject: [PATCH 19/67] fix: compare the return and parameter types of comptime
 function types

---
 src/cxy/lang/middle/eval/eval.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/cxy/lang/middle/eval/eval.c b/src/cxy/lang/middle/eval/eval.c
index 465962f..60f4f0b 100644
--- a/src/cxy/lang/middle/eval/eval.c
+++ b/src/cxy/lang/middle/eval/eval.c
@@ -81,7 +81,9 @@ bool comptimeCompareTypes(const AstNode *lhs, const AstNode *rhs)
         return comptimeCompareTypes(lhs->optionalType.type,
                                     rhs->optionalType.type);
     case astFuncType:
-        return comptimeCompareTypes(lhs->funcType.ret, rhs->funcType.params);
+        return comptimeCompareTypes(lhs->funcType.ret, rhs->funcType.ret) &&
+               comptimeCompareManyTypes(lhs->funcType.params,
+                                        rhs->funcType.params);
     case astEnumDecl:
         return lhs->enumDecl.name == rhs->enumDecl.name;
     case astStructDecl:
-- 
2.43.0


From aed3c8f2e2fe676e3b3bc3e91db00d8baec65cc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:47:06 +0000
Subject: [PATCH 20/67] fix: comptime element access and loop values keep their
 own place in the tree

---
 src/cxy/lang/middle/eval/index.c  | 23 +++++++++--------------
 src/cxy/lang/middle/eval/member.c |  3 +++
 src/cxy/lang/middle/eval/path.c   |  7 +++++--
 3 files changed, 17 insertions(+), 16 deletions(-)

diff --git a/src/cxy/lang/middle/eval/index.c b/src/cxy/lang/middle/eval/index.c
index 160844e..f1e59ca 100644
--- a/src/cxy/lang/middle/eval/index.c
+++ b/src/cxy/lang/middle/eval/index.c
@@ -76,28 +76,17 @@ static bool evalIntegerIndexExpr(EvalContext *ctx, AstNode *node)
     AstNode *target = node->indexExpr.target;
     AstNode *index = node->indexExpr.index;
 
-    i64 i = (i64)nodeGetNumericLiteral(index);
-    u64 len = nodeIs(target, StringLit) ? strlen(target->stringLiteral.value)
-                                        : target->arrayExpr.len;
-    if (i < 0 || i >= len) {
-        logError(ctx->L,
-                 &node->loc,
-                 "index out of bounds for comp-time index "
-                 "expression, requested index '{i64}', expecting '< {u64}'",
-                 (FormatArg[]){{.i64 = i}, {.u64 = len}});
-
-        node->tag = astError;
-        return false;
-    }
+    i64 i = integerLiteralValue(index);
 
     switch (target->tag) {
     case astStringLit:
-        if (i > strlen(target->stringLiteral.value)) {
+        if (i < 0 || i >= strlen(target->stringLiteral.value)) {
             logError(
                 ctx->L,
                 &node->loc,
                 "index {i64} is out of range for string {s}",
                 (FormatArg[]){{.i64 = i}, {.s = target->stringLiteral.value}});
+            node->tag = astError;
             return false;
         }
         clearAstBody(node);
@@ -141,6 +130,7 @@ void evalIndexExpr(AstVisitor *visitor, AstNode *node)
 {
     EvalContext *ctx = getAstVisitorContext(visitor);
     AstNode *target = node->indexExpr.target;
+    AstNode *next = node->next, *parentScope = node->parentScope;
 
     if (!evaluate(visitor, target)) {
         node->tag = astError;
@@ -167,4 +157,9 @@ void evalIndexExpr(AstVisitor *visitor, AstNode *node)
                  NULL);
         node->tag = astError;
     }
+
+    // the element was copied together with its links
+    if (!hasFlag(node, ComptimeIterable))
+        node->next = next;
+    node->parentScope = parentScope;
 }
diff --git a/src/cxy/lang/middle/eval/member.c b/src/cxy/lang/middle/eval/member.c
index 46ebacb..3df6d0f 100644
--- a/src/cxy/lang/middle/eval/member.c
+++ b/src/cxy/lang/middle/eval/member.c
@@ -34,7 +34,10 @@ static bool evalIntegerMemberExpr(EvalContext *ctx, AstNode *node)
         return false;
     }
 
+    AstNode *next = node->next, *parentScope = node->parentScope;
     *node = *getNodeAtIndex(target->tupleExpr.elements, i);
+    node->next = next;
+    node->parentScope = parentScope;
     return true;
 }
 
diff --git a/src/cxy/lang/middle/eval/path.c b/src/cxy/lang/middle/eval/path.c
index 058861e..db60a09 100644
--- a/src/cxy/lang/middle/eval/path.c
+++ b/src/cxy/lang/middle/eval/path.c
@@ -144,8 +144,11 @@ void evalPathEpilogue(AstVisitor *visitor,
         node->flags |= (symbol->flags & flgVariadic);
     }
     else {
-        replaceAstNodeWith(
-            node, nodeIs(symbol, VarDecl) ? symbol->varDecl.init : symbol);
+        // the symbol is usually part of a list, do not bring its siblings along
+        AstNode value =
+            nodeIs(symbol, VarDecl) ? *symbol->varDecl.init : *symbol;
+        value.next = NULL;
+        replaceAstNodeWith(node, &value);
         if (hasFlag(node, ComptimeIterable))
             node->next = symbol->next;
         node->flags &= ~flgComptime;
-- 
2.43.0


From f3f4b1931ee3c63a6cf2a267e0cb0abb84fa2e8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:50:19 +0000
Subject: [PATCH 21/67] fix: parenthesise nested operands in the generated C

---
 src/cxy/lang/backend/c/generate.c | 66 ++++++++++++++++++++++++-------
 1 file changed, 51 insertions(+), 15 deletions(-)

diff --git a/src/cxy/lang/backend/c/generate.c b/src/cxy/lang/backend/c/generate.c
index dca248c..bd8778a 100644
--- a/src/cxy/lang/backend/c/generate.c
+++ b/src/cxy/lang/backend/c/generate.c
@@ -868,14 +868,50 @@ static void visitArrayExpr(ConstAstVisitor *visitor, const AstNode *node)
     generateMany(visitor, node->arrayExpr.elements, "{{", ", ", "}");
 }
 
+static bool isCompoundExpr(const AstNode *node)
+{
+    switch (node->tag) {
+    case astBinaryExpr:
+    case astAssignExpr:
+    case astTernaryExpr:
+    case astUnaryExpr:
+    case astPointerOf:
+    case astReferenceOf:
+    case astCastExpr:
+    case astTypedExpr:
+        return true;
+    case astIntegerLit:
+        return node->intLiteral.isNegative;
+    case astFloatLit:
+        return node->floatLiteral.value < 0;
+    default:
+        return false;
+    }
+}
+
+// The shape of the tree, not C's operator precedence, determines what an
+// operator applies to
+static void generateOperand(ConstAstVisitor *visitor, const AstNode *node)
+{
+    CodegenContext *ctx = getConstAstVisitorContext(visitor);
+    if (!isCompoundExpr(node)) {
+        astConstVisit(visitor, node);
+        return;
+    }
+
+    format(getState(ctx), "(", NULL);
+    astConstVisit(visitor, node);
+    format(getState(ctx), ")", NULL);
+}
+
 static void visitBinaryExpr(ConstAstVisitor *visitor, const AstNode *node)
 {
     CodegenContext *ctx = getConstAstVisitorContext(visitor);
-    astConstVisit(visitor, node->binaryExpr.lhs);
+    generateOperand(visitor, node->binaryExpr.lhs);
     format(getState(ctx),
            " {s} ",
            (FormatArg[]){{.s = getBinaryOpString(node->assignExpr.op)}});
-    astConstVisit(visitor, node->binaryExpr.rhs);
+    generateOperand(visitor, node->binaryExpr.rhs);
 }
 
 static void visitAssignExpr(ConstAstVisitor *visitor, const AstNode *node)
@@ -891,14 +927,14 @@ static void visitAssignExpr(ConstAstVisitor *visitor, const AstNode *node)
 static void visitTernaryExpr(ConstAstVisitor *visitor, const AstNode *node)
 {
     CodegenContext *ctx = getConstAstVisitorContext(visitor);
-    astConstVisit(visitor, node->ternaryExpr.cond);
+    generateOperand(visitor, node->ternaryExpr.cond);
     format(getState(ctx), "?", NULL);
     if (node->ternaryExpr.body) {
         format(getState(ctx), " ", NULL);
-        astConstVisit(visitor, node->ternaryExpr.body);
+        generateOperand(visitor, node->ternaryExpr.body);
     }
     format(getState(ctx), ": ", NULL);
-    astConstVisit(visitor, node->ternaryExpr.otherwise);
+    generateOperand(visitor, node->ternaryExpr.otherwise);
 }
 
 static void visitUnaryExpr(ConstAstVisitor *visitor, const AstNode *node)
@@ -913,10 +949,10 @@ static void visitUnaryExpr(ConstAstVisitor *visitor, const AstNode *node)
                    "{s}",
                    (FormatArg[]){{.s = getUnaryOpString(node->unaryExpr.op)}});
         }
-        astConstVisit(visitor, node->unaryExpr.operand);
+        generateOperand(visitor, node->unaryExpr.operand);
     }
     else {
-        astConstVisit(visitor, node->unaryExpr.operand);
+        generateOperand(visitor, node->unaryExpr.operand);
         format(getState(ctx),
                "{s}",
                (FormatArg[]){{.s = getUnaryOpString(node->unaryExpr.op)}});
@@ -929,7 +965,7 @@ static void visitTypedExpr(ConstAstVisitor *visitor, const AstNode *node)
     format(getState(ctx), "(", NULL);
     generateTypeName(ctx, getState(ctx), node->type);
     format(getState(ctx), ")", NULL);
-    astConstVisit(visitor, node->typedExpr.expr);
+    generateOperand(visitor, node->typedExpr.expr);
 }
 
 static void visitCastExpr(ConstAstVisitor *visitor, const AstNode *node)
@@ -954,7 +990,7 @@ static void visitCastExpr(ConstAstVisitor *visitor, const AstNode *node)
     if (hasFlag(node, UnionCast) || typeIs(from, Union)) {
         if (isReferenceType(to) && !isClassType(stripReference(to)))
             format(getState(ctx), "&", NULL);
-        astConstVisit(visitor, expr);
+        generateOperand(visitor, expr);
         if (isPointerOrReferenceType(from))
             format(getState(ctx),
                    "->_{i64}",
@@ -977,7 +1013,7 @@ static void visitCastExpr(ConstAstVisitor *visitor, const AstNode *node)
     format(getState(ctx), "(", NULL);
     generateTypeName(ctx, getState(ctx), to);
     format(getState(ctx), ")", NULL);
-    astConstVisit(visitor, expr);
+    generateOperand(visitor, expr);
 }
 
 static void visitGroupExpr(ConstAstVisitor *visitor, const AstNode *node)
@@ -998,7 +1034,7 @@ static void visitStmtExpr(ConstAstVisitor *visitor, const AstNode *node)
 
 static void visitCallExpr(ConstAstVisitor *visitor, const AstNode *node)
 {
-    astConstVisit(visitor, node->callExpr.callee);
+    generateOperand(visitor, node->callExpr.callee);
     generateMany(visitor, node->callExpr.args, "(", ", ", ")");
 }
 
@@ -1020,7 +1056,7 @@ static void visitMemberExpr(ConstAstVisitor *visitor, const AstNode *node)
     }
 
     if (!isImportDeclReference(target)) {
-        astConstVisit(visitor, target);
+        generateOperand(visitor, target);
         if (isPointerType(target->type) || isClassType(target->type) ||
             isReferenceType(target->type))
             format(getState(ctx), "->", NULL);
@@ -1047,7 +1083,7 @@ static void visitPointerOfExpr(ConstAstVisitor *visitor, const AstNode *node)
 {
     CodegenContext *ctx = getConstAstVisitorContext(visitor);
     format(getState(ctx), "&", NULL);
-    astConstVisit(visitor, node->unaryExpr.operand);
+    generateOperand(visitor, node->unaryExpr.operand);
 }
 
 static void visitReferenceOfExpr(ConstAstVisitor *visitor, const AstNode *node)
@@ -1056,13 +1092,13 @@ static void visitReferenceOfExpr(ConstAstVisitor *visitor, const AstNode *node)
     if (!isClassType(node->type->reference.referred))
         format(getState(ctx), "&", NULL);
 
-    astConstVisit(visitor, node->unaryExpr.operand);
+    generateOperand(visitor, node->unaryExpr.operand);
 }
 
 static void visitIndexExpr(ConstAstVisitor *visitor, const AstNode *node)
 {
     CodegenContext *ctx = getConstAstVisitorContext(visitor);
-    astConstVisit(visitor, node->indexExpr.target);
+    generateOperand(visitor, node->indexExpr.target);
     format(getState(ctx), "[", NULL);
     astConstVisit(visitor, node->indexExpr.index);
     format(getState(ctx), "]", NULL);
-- 
2.43.0


From 18379b911f3bc7679a1d8143338f5b267d4cf24f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:06:21 +0000
Subject: [PATCH 22/67] fix: evaluate grouped literals and reject non-literal
 operands of comptime operators

---
 src/cxy/lang/middle/eval/binary.c | 49 ++++++++++++++++++++++++++-----
 src/cxy/lang/middle/eval/eval.c   |  3 +-
 src/cxy/lang/middle/eval/unary.c  |  8 +++--
 3 files changed, 49 insertions(+), 11 deletions(-)

diff --git a/src/cxy/lang/middle/eval/binary.c b/src/cxy/lang/middle/eval/binary.c
index f7820b7..7f65e3e 100644
--- a/src/cxy/lang/middle/eval/binary.c
+++ b/src/cxy/lang/middle/eval/binary.c
@@ -15,6 +15,19 @@ static inline bool isSupportedBinaryOperand(AstNode *node)
            nodeIs(node, GenericParam);
 }
 
+// literals that nodeGetNumericLiteral() can read
+static inline bool isScalarLiteral(const AstNode *node)
+{
+    return nodeIs(node, NullLit) || nodeIs(node, BoolLit) ||
+           nodeIs(node, CharLit) || nodeIs(node, IntegerLit) ||
+           nodeIs(node, FloatLit);
+}
+
+static inline bool isValueOperand(const AstNode *node)
+{
+    return isScalarLiteral(node) || nodeIs(node, StringLit);
+}
+
 static inline bool isArgumentTypeThis(const AstNode *node)
 {
     return nodeIs(node, Path) &&
@@ -92,6 +105,30 @@ bool verifyBinaryExprOperand(EvalContext *ctx, AstNode *node)
         return false;
     }
 
+    if (op == opIs || op == opCatch || op == opRange)
+        return true;
+
+    // `==` and `!=` can also compare types, `+` can append to strings, every
+    // other operator needs values to operate on
+    bool valid;
+    if (op == opEq || op == opNe)
+        valid = (isValueOperand(lhs) || isTypeExpr(lhs)) &&
+                (isValueOperand(rhs) || isTypeExpr(rhs));
+    else if (op == opLt || op == opGt || op == opLeq || op == opGeq)
+        valid = isValueOperand(lhs) && isValueOperand(rhs);
+    else
+        valid = isValueOperand(lhs) && isValueOperand(rhs) &&
+                !nodeIs(lhs, NullLit);
+
+    if (!valid) {
+        logError(ctx->L,
+                 &lhs->loc,
+                 "operands of comp-time operator `{s}` must be literal values",
+                 (FormatArg[]){{.s = getBinaryOpString(op)}});
+        node->tag = astError;
+        return false;
+    }
+
     return true;
 }
 
@@ -357,10 +394,8 @@ static void evalLAndOperation(EvalContext *ctx, AstNode *node)
         return;
     }
 
-    f64 lValue = isSupportedBinaryOperand(lhs) ? nodeGetNumericLiteral(lhs)
-                                               : !nodeIs(lhs, NullLit);
-    f64 rValue = isSupportedBinaryOperand(rhs) ? nodeGetNumericLiteral(rhs)
-                                               : !nodeIs(rhs, NullLit);
+    f64 lValue = isScalarLiteral(lhs) ? nodeGetNumericLiteral(lhs) : true;
+    f64 rValue = isScalarLiteral(rhs) ? nodeGetNumericLiteral(rhs) : true;
 
     node->tag = astBoolLit;
     node->boolLiteral.value = lValue && rValue;
@@ -379,10 +414,8 @@ static void evalLOrOperation(EvalContext *ctx, AstNode *node)
         return;
     }
 
-    f64 lValue = isSupportedBinaryOperand(lhs) ? nodeGetNumericLiteral(lhs)
-                                               : !nodeIs(lhs, NullLit);
-    f64 rValue = isSupportedBinaryOperand(rhs) ? nodeGetNumericLiteral(rhs)
-                                               : !nodeIs(rhs, NullLit);
+    f64 lValue = isScalarLiteral(lhs) ? nodeGetNumericLiteral(lhs) : true;
+    f64 rValue = isScalarLiteral(rhs) ? nodeGetNumericLiteral(rhs) : true;
 
     node->tag = astBoolLit;
     node->boolLiteral.value = lValue || rValue;
diff --git a/src/cxy/lang/middle/eval/eval.c b/src/cxy/lang/middle/eval/eval.c
index 60f4f0b..6651b3a 100644
--- a/src/cxy/lang/middle/eval/eval.c
+++ b/src/cxy/lang/middle/eval/eval.c
@@ -104,7 +104,8 @@ bool comptimeCompareTypes(const AstNode *lhs, const AstNode *rhs)
 
 bool evaluate(AstVisitor *visitor, AstNode *node)
 {
-    if (node->tag != astUnaryExpr &&
+    // operators and groups are still to be evaluated, even on literals
+    if (!nodeIs(node, UnaryExpr) && !nodeIs(node, GroupExpr) &&
         (isLiteralExpr(node) || isBuiltinTypeExpr(node)))
         return true;
 
diff --git a/src/cxy/lang/middle/eval/unary.c b/src/cxy/lang/middle/eval/unary.c
index c79b472..d71734b 100644
--- a/src/cxy/lang/middle/eval/unary.c
+++ b/src/cxy/lang/middle/eval/unary.c
@@ -40,8 +40,10 @@ static bool evalVerifyIntegerOrFloatOperand(EvalContext *ctx,
 static void evalPrefixMinusOperation(EvalContext *ctx, AstNode *node)
 {
     AstNode *rhs = node->unaryExpr.operand;
-    if (!evalVerifyIntegerOrFloatOperand(ctx, rhs, node->unaryExpr.op))
+    if (!evalVerifyIntegerOrFloatOperand(ctx, rhs, node->unaryExpr.op)) {
+        node->tag = astError;
         return;
+    }
 
     f64 value = -nodeGetNumericLiteral(rhs);
     if (nodeIs(rhs, FloatLit)) {
@@ -61,8 +63,10 @@ static void evalPrefixMinusOperation(EvalContext *ctx, AstNode *node)
 static void evalPrefixPlusOperation(EvalContext *ctx, AstNode *node)
 {
     AstNode *rhs = node->unaryExpr.operand;
-    if (!evalVerifyIntegerOrFloatOperand(ctx, rhs, node->unaryExpr.op))
+    if (!evalVerifyIntegerOrFloatOperand(ctx, rhs, node->unaryExpr.op)) {
+        node->tag = astError;
         return;
+    }
 
     f64 value = +nodeGetNumericLiteral(rhs);
     if (nodeIs(rhs, FloatLit)) {
-- 
2.43.0


From d8758f7ed8f657ae15dd25085d61d89c9aaac3bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:59:27 +0000
Subject: [PATCH 23/67] fix: parse the right hand side of an assignment as a
 whole expression

---
 src/cxy/lang/frontend/parser.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/cxy/lang/frontend/parser.c b/src/cxy/lang/frontend/parser.c
index 5ec7119..d3009a2 100644
--- a/src/cxy/lang/frontend/parser.c
+++ b/src/cxy/lang/frontend/parser.c
@@ -849,6 +849,8 @@ static AstNode *prefix(Parser *P, AstNode *(parsePrimary)(Parser *, bool))
 
 static AstNode *assign(Parser *P, AstNode *(parsePrimary)(Parser *, bool));
 
+static AstNode *ternary(Parser *P, AstNode *(parsePrimary)(Parser *, bool));
+
 static AstNode *binary(Parser *P,
                        AstNode *lhs,
                        int prec,
@@ -893,7 +895,7 @@ static AstNode *assign(Parser *P, AstNode *(parsePrimary)(Parser *, bool))
     const Token tok = *current(P);
     if (isAssignmentOperator(tok.tag)) {
         advance(P);
-        AstNode *rhs = assign(P, parsePrimary);
+        AstNode *rhs = ternary(P, parsePrimary);
 
         return newAstNode_(
             P,
-- 
2.43.0


From 6e08076a16d47f1ff5e9bd35abe57c2f31ef3601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:11 +0000
Subject: [PATCH 24/67] fix: accept signed number literals as attribute
 arguments

---
 src/cxy/lang/frontend/parser.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/cxy/lang/frontend/parser.c b/src/cxy/lang/frontend/parser.c
index d3009a2..e2dc1dc 100644
--- a/src/cxy/lang/frontend/parser.c
+++ b/src/cxy/lang/frontend/parser.c
@@ -1838,11 +1838,13 @@ static AstNode *attribute(Parser *P)
                 break;
             case tokPlus:
             case tokMinus:
-                if (match(P, tokIntLiteral)) {
+                if (checkPeek(P, 1, tokIntLiteral)) {
+                    advance(P);
                     value = parseInteger(P, previous(P)->tag == tokMinus);
                     break;
                 }
-                if (check(P, tokFloatLiteral)) {
+                if (checkPeek(P, 1, tokFloatLiteral)) {
+                    advance(P);
                     value = parseFloat(P, previous(P)->tag == tokMinus);
                     break;
                 }
-- 
2.43.0


From 3f0b6fddb341451a8532cc1887485fc2007cff3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:59 +0000
Subject: [PATCH 25/67] fix: generate float literals with all their digits

---
 src/cxy/lang/backend/c/generate.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/cxy/lang/backend/c/generate.c b/src/cxy/lang/backend/c/generate.c
index bd8778a..65fdf94 100644
--- a/src/cxy/lang/backend/c/generate.c
+++ b/src/cxy/lang/backend/c/generate.c
@@ -813,9 +813,10 @@ static void visitIntegerLit(ConstAstVisitor *visitor, const AstNode *node)
 static void visitFloatLit(ConstAstVisitor *visitor, const AstNode *node)
 {
     CodegenContext *ctx = getConstAstVisitorContext(visitor);
-    format(getState(ctx),
-           "{f64}",
-           (FormatArg[]){{.f64 = node->floatLiteral.value}});
+    // enough digits for the C compiler to read back the same value
+    char text[32];
+    snprintf(text, sizeof(text), "%.17e", node->floatLiteral.value);
+    appendString(getState(ctx), text);
 }
 
 static void visitStringLit(ConstAstVisitor *visitor, const AstNode *node)
-- 
2.43.0


From 5ce94c21c72f2502ac8b1552e2277337cfcd81d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:59 +0000
Subject: [PATCH 26/67] fix: a numeric character escape does not depend on an
 earlier error

---
 src/cxy/core/utils.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/cxy/core/utils.c b/src/cxy/core/utils.c
index aeddd88..8a9c895 100644
--- a/src/cxy/core/utils.c
+++ b/src/cxy/core/utils.c
@@ -29,6 +29,7 @@ static inline bool isodigit(int c) { return c >= '0' && c <= '7'; }
 static size_t convertStrToCharOrd(const char *ptr, int base, u32 *res)
 {
     char *next = NULL;
+    errno = 0;
     unsigned int ord = strtoul(ptr, &next, base);
     *res = ord;
     return ord <= 255 && !errno ? next - ptr : 0;
-- 
2.43.0


From 00512f738f17299210bd803501de970f8be07bad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:19 +0000
Subject: [PATCH 27/67] fix: keep escaped and non-ASCII characters of string
 literals

---
 src/cxy/core/utils.c              | 33 ++++++++++++++++++++++++-------
 src/cxy/lang/backend/c/generate.c | 25 ++++++++++++++---------
 2 files changed, 42 insertions(+), 16 deletions(-)

diff --git a/src/cxy/core/utils.c b/src/cxy/core/utils.c
index 8a9c895..c33170d 100644
--- a/src/cxy/core/utils.c
+++ b/src/cxy/core/utils.c
@@ -193,16 +193,35 @@ size_t escapeString(const char *str, size_t n, char *dst, size_t size)
             dst[j++] = '"';
             i++;
             break;
-        case '0':
-            if (!isdigit(str[i + 1])) {
-                dst[j++] = '\0';
-                i++;
-                break;
-            }
-        default:
+        case '\'':
+            dst[j++] = '\'';
+            i++;
+            break;
+        case '\\':
             dst[j++] = '\\';
+            i++;
+            break;
+        default: {
+            // one to three octal digits or x and one or two hexadecimal ones
+            u32 ord = 0;
+            u64 k = i;
+            if (isodigit(str[k])) {
+                for (; k < n && k < i + 3 && isodigit(str[k]); k++)
+                    ord = ord * 8 + (str[k] - '0');
+            }
+            else if (str[k] == 'x' && i + 1 < n &&
+                     isxdigit((unsigned char)str[i + 1])) {
+                for (k++; k < n && k < i + 3 && isxdigit((unsigned char)str[k]);
+                     k++) {
+                    char c = (char)tolower((unsigned char)str[k]);
+                    ord = ord * 16 + (isdigit(c) ? c - '0' : c - 'a' + 10);
+                }
+            }
+            dst[j++] = k == i ? '\\' : (char)ord;
+            i = k;
             break;
         }
+        }
     }
 
     dst[j] = 0;
diff --git a/src/cxy/lang/backend/c/generate.c b/src/cxy/lang/backend/c/generate.c
index 65fdf94..e14f804 100644
--- a/src/cxy/lang/backend/c/generate.c
+++ b/src/cxy/lang/backend/c/generate.c
@@ -819,16 +819,26 @@ static void visitFloatLit(ConstAstVisitor *visitor, const AstNode *node)
     appendString(getState(ctx), text);
 }
 
+static void generateStringChar(FormatState *state, char c)
+{
+    unsigned char byte = (unsigned char)c;
+    if (byte >= 0x80 || (iscntrl(byte) && (byte < '\a' || byte > '\r'))) {
+        // exactly three digits, so that the next character stays separate
+        char octal[8];
+        snprintf(octal, sizeof(octal), "\\%03o", byte);
+        appendString(state, octal);
+    }
+    else
+        printUtf8(state, byte, true);
+}
+
 static void visitStringLit(ConstAstVisitor *visitor, const AstNode *node)
 {
     CodegenContext *ctx = getConstAstVisitorContext(visitor);
     cstring p = node->stringLiteral.value;
     format(getState(ctx), "\"", NULL);
-    while (*p != '\0') {
-        bool escaped =
-            p[0] != '\\' || (p[1] != 'x' && p[1] != 'X' && !isdigit(p[1]));
-        printUtf8(getState(ctx), *p++, escaped);
-    }
+    for (; *p != '\0'; p++)
+        generateStringChar(getState(ctx), *p);
     format(getState(ctx), "\"", NULL);
 }
 
@@ -1400,10 +1410,7 @@ static void visitInlineAssembly(ConstAstVisitor *visitor, const AstNode *node)
             format(getState(ctx), "%%", NULL);
             break;
         default:
-            printUtf8(getState(ctx),
-                      *p,
-                      p[0] != '\\' ||
-                          (p[1] != 'x' && p[1] != 'X' && !isdigit(p[1])));
+            generateStringChar(getState(ctx), *p);
             break;
         }
         p++;
-- 
2.43.0


From 7ce48cbc0a53f20276f55d73c5499ab5d6ba3c21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:19 +0000
Subject: [PATCH 28/67] fix: generate quote and non-ASCII character literals

---
 src/cxy/lang/backend/c/generate.c | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/src/cxy/lang/backend/c/generate.c b/src/cxy/lang/backend/c/generate.c
index e14f804..13d9d0c 100644
--- a/src/cxy/lang/backend/c/generate.c
+++ b/src/cxy/lang/backend/c/generate.c
@@ -781,16 +781,13 @@ static void visitBoolLit(ConstAstVisitor *visitor, const AstNode *node)
 static void visitCharLit(ConstAstVisitor *visitor, const AstNode *node)
 {
     CodegenContext *ctx = getConstAstVisitorContext(visitor);
-    if (node->type->primitive.id == prtCChar) {
-        format(getState(ctx),
-               "'{cE}'",
-               (FormatArg[]){{.c = node->charLiteral.value}});
-    }
-    else {
-        format(getState(ctx),
-               "'{cE}'",
-               (FormatArg[]){{.c = node->charLiteral.value}});
-    }
+    u32 value = node->charLiteral.value;
+    if (value >= 0x80)
+        format(getState(ctx), "{u32}", (FormatArg[]){{.u32 = value}});
+    else if (value == '\'')
+        format(getState(ctx), "'\\''", NULL);
+    else
+        format(getState(ctx), "'{cE}'", (FormatArg[]){{.c = value}});
 }
 
 static void visitIntegerLit(ConstAstVisitor *visitor, const AstNode *node)
-- 
2.43.0


From 225837869261e327587777e21e2365f0f18e6d1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:53 +0000
Subject: [PATCH 29/67] fix: consistent names of unnamed types and delimited
 match and branch expressions in the generated C

---
 src/cxy/lang/backend/c/generate.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/cxy/lang/backend/c/generate.c b/src/cxy/lang/backend/c/generate.c
index 13d9d0c..965e30f 100644
--- a/src/cxy/lang/backend/c/generate.c
+++ b/src/cxy/lang/backend/c/generate.c
@@ -278,7 +278,7 @@ static void generateExceptionType(CodegenContext *ctx, const Type *type)
     ((Type *)type)->generating = false;
 
     format(typeState(ctx), "struct ", NULL);
-    generateCustomTypeName(ctx, typeState(ctx), type, "Struct");
+    generateCustomTypeName(ctx, typeState(ctx), type, "Exception");
     format(typeState(ctx), " {{{>}", NULL);
     member = type->exception.decl->exception.params;
     for (; member; member = member->next) {
@@ -599,7 +599,7 @@ static void generateTypeName(CodegenContext *ctx,
         break;
     case typUntaggedUnion:
         format(state, "union ", NULL);
-        generateCustomTypeName(ctx, state, type, "UntaggedUnion");
+        generateCustomTypeName(ctx, state, type, "Union");
         break;
     case typFunc:
         generateCustomTypeName(ctx, state, type, "Func");
@@ -1497,7 +1497,7 @@ static void visitBranch(ConstAstVisitor *visitor, const AstNode *node)
     }
     else {
         format(getState(ctx),
-               "goto __bbCleanup{u64}",
+               "goto __bbCleanup{u64};",
                (FormatArg[]){{.u64 = target->basicBlock.index}});
     }
 }
@@ -1610,7 +1610,7 @@ static void visitMatchStmt(ConstAstVisitor *visitor, const AstNode *node)
     CodegenContext *ctx = getConstAstVisitorContext(visitor);
 
     format(getState(ctx), "switch (", NULL);
-    astConstVisit(visitor, node->matchStmt.expr);
+    generateOperand(visitor, node->matchStmt.expr);
     if (isPointerOrReferenceType(node->matchStmt.expr->type))
         format(getState(ctx), "->tag", NULL);
     else
-- 
2.43.0


From 3472d0ddad82c6ccd0e082d5b0c6d68402cc5f25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:35 +0000
Subject: [PATCH 30/67] fix: cast enum, grouped and non-numeric literals
 without aborting, with the value's own sign

---
 src/cxy/lang/middle/sema/cast.c | 129 +++++++++++++++++---------------
 1 file changed, 67 insertions(+), 62 deletions(-)

diff --git a/src/cxy/lang/middle/sema/cast.c b/src/cxy/lang/middle/sema/cast.c
index 6074c0a..1cc88d4 100644
--- a/src/cxy/lang/middle/sema/cast.c
+++ b/src/cxy/lang/middle/sema/cast.c
@@ -10,10 +10,8 @@
 static void castIntegerLiteral(const Type *to, AstNode *expr)
 {
 #define CAST_INTEGER(TYP)                                                      \
-    if (expr->intLiteral.isNegative)                                           \
-        expr->intLiteral.value = (i64)(TYP)expr->intLiteral.value;             \
-    else                                                                       \
-        expr->intLiteral.uValue = (u64)(TYP)expr->intLiteral.uValue;
+    expr->intLiteral.value = (i64)(TYP)expr->intLiteral.value;                 \
+    expr->intLiteral.isNegative = (TYP)-1 < 0 && expr->intLiteral.value < 0;
 
     switch (to->primitive.id) {
     case prtU8:
@@ -46,71 +44,78 @@ static void castIntegerLiteral(const Type *to, AstNode *expr)
 #undef CAST_INTEGER
 }
 
+// Characters, booleans and enum options are integers in a numeric cast
+static void literalToInteger(AstNode *expr)
+{
+    i64 value = 0;
+    if (nodeIs(expr, CharLit))
+        value = expr->charLiteral.value;
+    else if (nodeIs(expr, BoolLit))
+        value = expr->boolLiteral.value ? 1 : 0;
+    else if (isEnumLiteral(expr))
+        value = getEnumLiteralValue(expr);
+    else
+        return;
+
+    expr->tag = astIntegerLit;
+    expr->intLiteral.isNegative = value < 0;
+    expr->intLiteral.value = value;
+}
+
 static void castLiteral(TypingContext *ctx, AstNode *node)
 {
-    if (isLiteralExpr(node) && typeIs(node->type, Primitive)) {
-        AstNode *expr = node->castExpr.expr;
-        expr->type = node->type;
-        if (isIntegerType(node->type)) {
-            if (nodeIs(expr, FloatLit)) {
-                expr->tag = astIntegerLit;
-                if (expr->floatLiteral.value < 0) {
-                    expr->intLiteral.isNegative = true;
-                    expr->intLiteral.value = (i64)expr->floatLiteral.value;
-                }
-                else {
-                    expr->intLiteral.isNegative = false;
-                    expr->intLiteral.uValue = (u64)expr->floatLiteral.value;
-                }
-            }
-            else if (nodeIs(expr, CharLit)) {
-                expr->tag = astIntegerLit;
-                expr->intLiteral.isNegative = false;
-                expr->intLiteral.uValue = expr->charLiteral.value;
-            }
-            else if (nodeIs(expr, BoolLit)) {
-                expr->tag = astIntegerLit;
-                expr->intLiteral.isNegative = false;
-                expr->intLiteral.uValue = expr->boolLiteral.value ? 1 : 0;
-            }
-            else if (isEnumLiteral(expr)) {
-                i64 value = getEnumLiteralValue(expr);
-                expr->tag = astIntegerLit;
-                if (value < 0) {
-                    expr->intLiteral.isNegative = true;
-                    expr->intLiteral.value = value;
-                }
-                else {
-                    expr->intLiteral.isNegative = false;
-                    expr->intLiteral.uValue = value;
-                }
-            }
-            else {
-                csAssert0(nodeIs(expr, IntegerLit));
-            }
-            castIntegerLiteral(node->type, expr);
-            replaceAstNodeWith(node, expr);
-        }
-        else if (isFloatType(node->type)) {
-            if (!nodeIs(expr, FloatLit)) {
-                expr->floatLiteral.value = (f64)integerLiteralValue(expr);
-                expr->tag = astFloatLit;
-            }
-            if (node->type->primitive.id == prtF32)
-                expr->floatLiteral.value = (f32)(expr->floatLiteral.value);
-            replaceAstNodeWith(node, expr);
+    AstNode *expr = node->castExpr.expr;
+    while (nodeIs(expr, GroupExpr))
+        expr = expr->groupExpr.expr;
+
+    // Anything else is left for the generated code to convert
+    if (!isIntegralLiteral(expr) || !typeIs(node->type, Primitive))
+        return;
+
+    if (isIntegerType(node->type)) {
+        if (nodeIs(expr, FloatLit)) {
+            f64 value = expr->floatLiteral.value;
+            expr->tag = astIntegerLit;
+            expr->intLiteral.isNegative = value < 0;
+            if (expr->intLiteral.isNegative)
+                expr->intLiteral.value = (i64)value;
+            else
+                expr->intLiteral.uValue = (u64)value;
         }
-        else if (isCharacterType(node->type)) {
-            expr->tag = astCharLit;
-            expr->charLiteral.value = (i32)nodeGetNumericLiteral(expr);
-            if (node->primitiveType.id == prtCChar)
-                expr->charLiteral.value = (u8)expr->charLiteral.value;
-            replaceAstNodeWith(node, expr);
+        else
+            literalToInteger(expr);
+        castIntegerLiteral(node->type, expr);
+    }
+    else if (isFloatType(node->type)) {
+        literalToInteger(expr);
+        if (!nodeIs(expr, FloatLit)) {
+            f64 value = expr->intLiteral.isNegative
+                            ? (f64)expr->intLiteral.value
+                            : (f64)expr->intLiteral.uValue;
+            expr->floatLiteral.value = value;
+            expr->tag = astFloatLit;
         }
+        if (node->type->primitive.id == prtF32)
+            expr->floatLiteral.value = (f32)(expr->floatLiteral.value);
+    }
+    else if (isCharacterType(node->type)) {
+        u32 value = 0;
+        if (nodeIs(expr, FloatLit))
+            value = (u32)(i64)expr->floatLiteral.value;
         else {
-            unreachable("UNSUPPORTED CAST");
+            literalToInteger(expr);
+            value = (u32)expr->intLiteral.uValue;
         }
+        expr->tag = astCharLit;
+        expr->charLiteral.value =
+            node->type->primitive.id == prtCChar ? (u8)value : value;
     }
+    else {
+        return;
+    }
+
+    expr->type = node->type;
+    replaceAstNodeWith(node, expr);
 }
 
 void checkCastExpr(AstVisitor *visitor, AstNode *node)
-- 
2.43.0


From a43b81ac057df0f8f7feed436412c9d5cd4f51b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:31 +0000
Subject: [PATCH 31/67] fix: clone every child of ranges, annotations,
 exceptions and the like, and whole sorted member tables

---
 src/cxy/lang/frontend/ast.c | 45 ++++++++++++++++++++++++++++++++++++-
 1 file changed, 44 insertions(+), 1 deletion(-)

diff --git a/src/cxy/lang/frontend/ast.c b/src/cxy/lang/frontend/ast.c
index ccd0d27..a1870bd 100644
--- a/src/cxy/lang/frontend/ast.c
+++ b/src/cxy/lang/frontend/ast.c
@@ -169,7 +169,9 @@ static SortedNodes *copySortedNodes(CloneAstConfig *config,
         config->pool, sizeof(SortedNodes) + (sizeof(AstNode *) * src->count));
     csAssert0(sortedNodes);
 
-    memcpy(sortedNodes, src, sizeof(SortedNodes));
+    memcpy(sortedNodes,
+           src,
+           sizeof(SortedNodes) + (sizeof(AstNode *) * src->count));
 
     for (u64 i = 0; i < src->count; i++) {
         replaceWithCorrespondingNode(&config->mapping, &sortedNodes->nodes[i]);
@@ -2135,12 +2137,14 @@ AstNode *cloneAstNode(CloneAstConfig *config, const AstNode *node)
         break;
     case astGenericParam:
         CLONE_MANY(genericParam, constraints);
+        CLONE_ONE(genericParam, defaultValue);
         break;
     case astTupleXform:
         CLONE_ONE(xForm, target);
         CLONE_MANY(xForm, args);
         CLONE_ONE(xForm, cond);
         CLONE_ONE(xForm, xForm);
+        break;
     case astGenericDecl:
         CLONE_MANY(genericDecl, params);
         CLONE_ONE(genericDecl, decl);
@@ -2161,6 +2165,9 @@ AstNode *cloneAstNode(CloneAstConfig *config, const AstNode *node)
     case astOptionalType:
         CLONE_ONE(optionalType, type);
         break;
+    case astResultType:
+        CLONE_ONE(resultType, target);
+        break;
     case astFuncType:
         CLONE_ONE(funcType, ret);
         CLONE_MANY(funcType, params);
@@ -2205,21 +2212,44 @@ AstNode *cloneAstNode(CloneAstConfig *config, const AstNode *node)
     case astUnionDecl:
         CLONE_MANY(unionDecl, members);
         COPY_SORTED(unionDecl, sortedMembers);
+        break;
 
     case astStructDecl:
         CLONE_MANY(structDecl, members);
+        CLONE_ONE(structDecl, base);
+        CLONE_MANY(structDecl, annotations);
         break;
 
     case astClassDecl:
         CLONE_MANY(classDecl, members);
         CLONE_ONE(classDecl, base);
         CLONE_MANY(classDecl, implements);
+        CLONE_MANY(classDecl, annotations);
         break;
 
     case astInterfaceDecl:
         CLONE_MANY(interfaceDecl, members);
         break;
 
+    case astDefine:
+        CLONE_MANY(define, names);
+        CLONE_ONE(define, type);
+        CLONE_ONE(define, container);
+        break;
+
+    case astException:
+        CLONE_MANY(exception, params);
+        CLONE_ONE(exception, body);
+        break;
+
+    case astTestDecl:
+        CLONE_ONE(testDecl, body);
+        break;
+
+    case astAnnotation:
+        CLONE_ONE(annotation, value);
+        break;
+
     case astEnumOptionDecl:
         CLONE_ONE(enumOption, value);
         break;
@@ -2319,9 +2349,21 @@ AstNode *cloneAstNode(CloneAstConfig *config, const AstNode *node)
         CLONE_ONE(memberExpr, target);
         CLONE_ONE(memberExpr, member);
         break;
+    case astRangeExpr:
+        CLONE_ONE(rangeExpr, start);
+        CLONE_ONE(rangeExpr, end);
+        CLONE_ONE(rangeExpr, step);
+        break;
+    case astNewExpr:
+        CLONE_ONE(newExpr, type);
+        CLONE_ONE(newExpr, init);
+        break;
     case astReturnStmt:
         CLONE_ONE(returnStmt, expr);
         break;
+    case astYieldStmt:
+        CLONE_ONE(yieldStmt, expr);
+        break;
     case astBlockStmt:
         CLONE_MANY(blockStmt, stmts);
         break;
@@ -2338,6 +2380,7 @@ AstNode *cloneAstNode(CloneAstConfig *config, const AstNode *node)
     case astWhileStmt:
         CLONE_ONE(whileStmt, cond);
         CLONE_ONE(whileStmt, body);
+        CLONE_MANY(whileStmt, update);
         break;
     case astSwitchStmt:
         CLONE_ONE(switchStmt, cond);
-- 
2.43.0


From 9748e565218462c45133109ea4eb76354e26d707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:10:04 +0000
Subject: [PATCH 32/67] fix: clone and visit every statement of a macro's body

---
 src/cxy/lang/frontend/ast.c     | 2 +-
 src/cxy/lang/frontend/visitor.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cxy/lang/frontend/ast.c b/src/cxy/lang/frontend/ast.c
index a1870bd..d21f4a7 100644
--- a/src/cxy/lang/frontend/ast.c
+++ b/src/cxy/lang/frontend/ast.c
@@ -2198,7 +2198,7 @@ AstNode *cloneAstNode(CloneAstConfig *config, const AstNode *node)
         break;
     case astMacroDecl:
         CLONE_MANY(macroDecl, params);
-        CLONE_ONE(macroDecl, body);
+        CLONE_MANY(macroDecl, body);
         break;
     case astVarDecl:
         CLONE_ONE(varDecl, type);
diff --git a/src/cxy/lang/frontend/visitor.c b/src/cxy/lang/frontend/visitor.c
index f278f27..0ad835a 100644
--- a/src/cxy/lang/frontend/visitor.c
+++ b/src/cxy/lang/frontend/visitor.c
@@ -148,7 +148,7 @@
         break;                                                                 \
     case astMacroDecl:                                                         \
         MODE##VisitManyNodes(visitor, node->macroDecl.params);                 \
-        MODE##Visit(visitor, node->macroDecl.body);                            \
+        MODE##VisitManyNodes(visitor, node->macroDecl.body);                   \
         break;                                                                 \
     case astFuncParamDecl:                                                     \
         MODE##Visit(visitor, node->funcParam.type);                            \
-- 
2.43.0


From 6fec0ae5a25fa0e1e74667610b2b20f93a3953ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:43 +0000
Subject: [PATCH 33/67] fix: reject malformed UTF-8 in character literals
 instead of aborting

---
 src/cxy/core/utils.c | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/cxy/core/utils.c b/src/cxy/core/utils.c
index c33170d..dd0a8f5 100644
--- a/src/cxy/core/utils.c
+++ b/src/cxy/core/utils.c
@@ -51,7 +51,8 @@ static u32_u32_pair convertStrToUtf32(const char *s, size_t count)
     if (len == 0) {
         return (u32_u32_pair){1, (u32)s[0]};
     }
-    csAssert(count <= len, "invalid UTF-8 character sequence");
+    if (len > count)
+        return (u32_u32_pair){0, 0};
 
     switch (len) {
     case 2:
@@ -64,10 +65,8 @@ static u32_u32_pair convertStrToUtf32(const char *s, size_t count)
                               ((s[0] & 0x7) << 18) | ((s[1] & 0x3F) << 12) |
                                   ((s[2] & 0x3F) << 6) | (s[3] & 0x3F)};
     default:
-        csAssert(false, "invalid UTF-8 sequence");
+        return (u32_u32_pair){0, 0};
     }
-
-    unreachable("");
 }
 
 size_t convertEscapeSeq(const char *ptr, size_t n, u32 *res)
@@ -136,12 +135,13 @@ size_t convertEscapeSeq(const char *ptr, size_t n, u32 *res)
 
 size_t readChar(cstring str, size_t len, u32 *res)
 {
-    if (((u8 *)str)[0] >= 0x80) {
-        size_t tmp = countLeadingZeros(str[0]);
-        csAssert(tmp <= len, "invalid UTF-8 character sequence");
-        len = tmp;
+    size_t size = convertEscapeSeq(str, len, res);
+    if (size == 0) {
+        // not the start of a character, take the byte as it is
+        *res = (u8)str[0];
+        size = 1;
     }
-    return convertEscapeSeq(str, len, res);
+    return size;
 }
 
 size_t escapeString(const char *str, size_t n, char *dst, size_t size)
-- 
2.43.0


From 8469eef25bacb1372618c9edc1b4d5817705c10e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:57 +0000
Subject: [PATCH 34/67] fix: reject empty character literals

---
 src/cxy/lang/frontend/lexer.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cxy/lang/frontend/lexer.c b/src/cxy/lang/frontend/lexer.c
index ccf581b..e4e664f 100644
--- a/src/cxy/lang/frontend/lexer.c
+++ b/src/cxy/lang/frontend/lexer.c
@@ -531,7 +531,7 @@ Token advanceLexer(Lexer *lexer)
             }
 
             Token token = makeToken(lexer, &begin, tokCharLiteral);
-            if (!acceptChar(lexer, '\'') ||
+            if (!acceptChar(lexer, '\'') || charCount == 0 ||
                 convertEscapeSeq(
                     ptr, getCurPtr(lexer) - ptr - 1, &token.cVal) != charCount)
                 return makeInvalidToken(
-- 
2.43.0


From 8b2cd668ab5019ab7c5ce288cdd51627c2575ebc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:25 +0000
Subject: [PATCH 35/67] fix: do not convert the values behind a pointer,
 reference or array

---
 src/cxy/lang/frontend/types.c | 28 +++++++++++++++++++++-------
 1 file changed, 21 insertions(+), 7 deletions(-)

diff --git a/src/cxy/lang/frontend/types.c b/src/cxy/lang/frontend/types.c
index 04be814..c430cfd 100644
--- a/src/cxy/lang/frontend/types.c
+++ b/src/cxy/lang/frontend/types.c
@@ -156,6 +156,19 @@ bool isTypeConst(const Type *type)
     return flags & flgConst;
 }
 
+// Values reached through memory are not converted when the pointer, reference
+// or array that leads to them is assigned, they must have the same layout
+static bool isPointeeAssignableFrom(const Type *to, const Type *from)
+{
+    const Type *_to = unwrapType(resolveType(to), NULL),
+               *_from = unwrapType(resolveType(from), NULL);
+    if (typeIs(_to, Primitive) && typeIs(_from, Primitive) &&
+        _to->primitive.id != _from->primitive.id)
+        return false;
+
+    return isTypeAssignableFrom(to, from);
+}
+
 bool isTypeAssignableFrom(const Type *to, const Type *from)
 {
     to = resolveType(to);
@@ -192,7 +205,8 @@ bool isTypeAssignableFrom(const Type *to, const Type *from)
         if (typeIs(from->pointer.pointed, Null))
             return true;
 
-        return isTypeAssignableFrom(to->pointer.pointed, from->pointer.pointed);
+        return isPointeeAssignableFrom(to->pointer.pointed,
+                                       from->pointer.pointed);
     }
 
     if (typeIs(from, Result) && !typeIs(to, Result)) {
@@ -240,23 +254,23 @@ bool isTypeAssignableFrom(const Type *to, const Type *from)
                    typeIs(from, Array) || typeIs(stripAll(from), Class);
 
         if (typeIs(from, Array))
-            return isTypeAssignableFrom(to->pointer.pointed,
-                                        from->array.elementType);
+            return isPointeeAssignableFrom(to->pointer.pointed,
+                                           from->array.elementType);
 
         return typeIs(from, Pointer) && isVoidPointer(from);
 
     case typReference:
         return typeIs(from, Reference) &&
-               isTypeAssignableFrom(to->reference.referred,
-                                    from->reference.referred);
+               isPointeeAssignableFrom(to->reference.referred,
+                                       from->reference.referred);
 
     case typOpaque:
         return typeIs(from, Pointer) && typeIs(from->pointer.pointed, Null);
 
     case typArray:
         if (!typeIs(from, Array) ||
-            !isTypeAssignableFrom(to->array.elementType,
-                                  from->array.elementType))
+            !isPointeeAssignableFrom(to->array.elementType,
+                                     from->array.elementType))
             return false;
         if (to->array.len == UINT64_MAX)
             return true;
-- 
2.43.0


From ddd0a2af4aafbdab306eae0a670c5f0e9f52089b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:25 +0000
Subject: [PATCH 36/67] fix: compare an array initializer with the type of the
 variable

---
 src/cxy/lang/middle/sema/variables.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/cxy/lang/middle/sema/variables.c b/src/cxy/lang/middle/sema/variables.c
index bd96c28..7fa78ad 100644
--- a/src/cxy/lang/middle/sema/variables.c
+++ b/src/cxy/lang/middle/sema/variables.c
@@ -57,10 +57,13 @@ void checkVarDecl(AstVisitor *visitor, AstNode *node)
     }
 
     if (isArrayType(type_) && nodeIs(init, ArrayExpr)) {
-        const Type *target = resolveAndUnThisType(init_->array.elementType),
+        const Type *array = unwrapType(resolveType(type_), NULL),
+                   *target = resolveAndUnThisType(array->array.elementType),
                    *initTarget = resolveAndUnThisType(init_->array.elementType);
+        bool isSized = array->array.len != UINT64_MAX;
         if (!typeIs(initTarget, Auto) &&
-            !isTypeAssignableFrom(target, initTarget)) {
+            (!isTypeAssignableFrom(target, initTarget) ||
+             (isSized && array->array.len != init_->array.len))) {
             logError(ctx->L,
                      &node->loc,
                      "array initializer of type {t} cannot be assigned to "
@@ -69,6 +72,11 @@ void checkVarDecl(AstVisitor *visitor, AstNode *node)
             node->type = ERROR_TYPE(ctx);
             return;
         }
+
+        if (!typeIs(initTarget, Auto) && isSized) {
+            // the literal is generated with the type of the variable
+            init->type = array;
+        }
     }
     else if (!isTypeAssignableFrom(unThisType(type_), init_)) {
         bool allow =
-- 
2.43.0


From a84e4bfd88af659b0ef63e994988fecda021bde0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:57 +0000
Subject: [PATCH 37/67] fix: do not convert between unrelated enums

---
 src/cxy/lang/frontend/types.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cxy/lang/frontend/types.c b/src/cxy/lang/frontend/types.c
index c430cfd..0c61c50 100644
--- a/src/cxy/lang/frontend/types.c
+++ b/src/cxy/lang/frontend/types.c
@@ -330,8 +330,8 @@ bool isTypeAssignableFrom(const Type *to, const Type *from)
         return true;
     }
     case typEnum:
-        return typeIs(from, Enum) &&
-               isTypeAssignableFrom(to->tEnum.base, from->tEnum.base);
+        return typeIs(from, Enum) && to->tEnum.decl &&
+               to->tEnum.decl == from->tEnum.decl;
     case typStruct:
         if (typeIs(from, This))
             return to == from->_this.that;
-- 
2.43.0


From 97f62c92a8e8370fa68c82ec89fbf09f1242bc5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:30 +0000
Subject: [PATCH 38/67] fix: only primitive operands have a primitive kind

---
 src/cxy/lang/frontend/ttable.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/cxy/lang/frontend/ttable.c b/src/cxy/lang/frontend/ttable.c
index 03bddbe..e9d937f 100644
--- a/src/cxy/lang/frontend/ttable.c
+++ b/src/cxy/lang/frontend/ttable.c
@@ -1364,14 +1364,15 @@ const Type *promoteType(TypeTable *table, const Type *left, const Type *right)
                 return left->size >= right->size ? left : right;
             if (isFloatType(right))
                 return right;
-            if (right->primitive.id == prtChar)
+            if (typeIs(right, Primitive) && right->primitive.id == prtChar)
                 return left->size >= 4 ? left : getPrimitiveType(table, prtU32);
             return NULL;
 
             FLOAT_TYPE_LIST(f)
             if (isFloatType(right))
                 return left->size >= right->size ? left : right;
-            if (isIntegerType(right) || right->primitive.id == prtChar)
+            if (isIntegerType(right) ||
+                (typeIs(right, Primitive) && right->primitive.id == prtChar))
                 return left;
 
 #undef f
-- 
2.43.0


From c441028f8a5a9571b038131039cda271bb08e3d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:51 +0000
Subject: [PATCH 39/67] fix: only a primitive type converts to bool

---
 src/cxy/lang/frontend/types.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/cxy/lang/frontend/types.c b/src/cxy/lang/frontend/types.c
index 0c61c50..c2c9050 100644
--- a/src/cxy/lang/frontend/types.c
+++ b/src/cxy/lang/frontend/types.c
@@ -246,7 +246,8 @@ bool isTypeAssignableFrom(const Type *to, const Type *from)
             return isCharacterType(from);
 
         default:
-            return to->primitive.id == from->primitive.id;
+            return typeIs(from, Primitive) &&
+                   to->primitive.id == from->primitive.id;
         }
     case typPointer:
         if (isVoidPointer(to))
-- 
2.43.0


From 5ce3a208b5cc8c91af46e79ce1cdafd2196b849c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:44 +0000
Subject: [PATCH 40/67] fix: stop at a cast that is rejected

---
 src/cxy/lang/middle/sema/cast.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/cxy/lang/middle/sema/cast.c b/src/cxy/lang/middle/sema/cast.c
index 1cc88d4..6d2bd05 100644
--- a/src/cxy/lang/middle/sema/cast.c
+++ b/src/cxy/lang/middle/sema/cast.c
@@ -123,11 +123,18 @@ void checkCastExpr(AstVisitor *visitor, AstNode *node)
     TypingContext *ctx = getAstVisitorContext(visitor);
     const Type *expr = checkType(visitor, node->castExpr.expr);
     const Type *target = checkType(visitor, node->castExpr.to);
+    if (typeIs(expr, Error) || typeIs(target, Error)) {
+        node->type = ERROR_TYPE(ctx);
+        return;
+    }
+
     if (!isTypeCastAssignable(target, expr)) {
         logError(ctx->L,
                  &node->loc,
                  "type '{t}' cannot be cast to type '{t}'",
                  (FormatArg[]){{.t = expr}, {.t = target}});
+        node->type = ERROR_TYPE(ctx);
+        return;
     }
     node->type = target;
     if (typeIs(expr, Union)) {
-- 
2.43.0


From 517b2718a0af8f7a044502cc283c01fae5d322ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:07 +0000
Subject: [PATCH 41/67] fix: dereference constants, arrays and strings by their
 own kind

---
 src/cxy/lang/middle/sema/unary.c | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/cxy/lang/middle/sema/unary.c b/src/cxy/lang/middle/sema/unary.c
index d6365e4..065063c 100644
--- a/src/cxy/lang/middle/sema/unary.c
+++ b/src/cxy/lang/middle/sema/unary.c
@@ -161,8 +161,15 @@ static const Type *checkPrefixExpr(AstVisitor *visitor,
             }
         }
         else if (isPointerType(operand)) {
+            operand = unwrapType(resolveType(operand), NULL);
+            if (typeIs(operand, Array))
+                operand = operand->array.elementType;
+            else if (typeIs(operand, String))
+                operand = getPrimitiveType(ctx->types, prtCChar);
+            else
+                operand = operand->pointer.pointed;
             node->tag = astIndexExpr;
-            node->type = operand->pointer.pointed;
+            node->type = operand;
             node->indexExpr.target = node->unaryExpr.operand;
             node->indexExpr.index =
                 makeUnsignedIntegerLiteral(ctx->pool,
@@ -170,7 +177,6 @@ static const Type *checkPrefixExpr(AstVisitor *visitor,
                                            0,
                                            NULL,
                                            getPrimitiveType(ctx->types, prtI8));
-            operand = operand->pointer.pointed;
         }
         else {
             logError(ctx->L,
@@ -272,7 +278,7 @@ void checkUnaryExpr(AstVisitor *visitor, AstNode *node)
                  &node->loc,
                  "postfix operation '{s}' cannot be performed on a constant",
                  (FormatArg[]){{.s = getUnaryOpString(node->unaryExpr.op)}});
-        operand = ERROR_TYPE(ctx);
+        node->type = ERROR_TYPE(ctx);
     }
     else if (!isNumericType(operand)) {
         logError(ctx->L,
@@ -280,6 +286,6 @@ void checkUnaryExpr(AstVisitor *visitor, AstNode *node)
                  "postfix expression '{s}' not supported on type '{t}'",
                  (FormatArg[]){{.s = getUnaryOpString(node->unaryExpr.op)},
                                {.t = operand}});
-        operand = ERROR_TYPE(ctx);
+        node->type = ERROR_TYPE(ctx);
     }
 }
-- 
2.43.0


From 0fbe2ac82b139c6350eca97eddafcc2be1aa3e83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:09 +0000
Subject: [PATCH 42/67] fix: reject compound assignments that their operator
 does not support

---
 src/cxy/lang/middle/sema/assign.c | 33 +++++++++++++++++++++++++++++++
 1 file changed, 33 insertions(+)

diff --git a/src/cxy/lang/middle/sema/assign.c b/src/cxy/lang/middle/sema/assign.c
index 8c7170a..e2ad1ae 100644
--- a/src/cxy/lang/middle/sema/assign.c
+++ b/src/cxy/lang/middle/sema/assign.c
@@ -34,6 +34,28 @@ static void checkIndexExprAssignment(AstVisitor *visitor, AstNode *node)
     checkType(visitor, node);
 }
 
+static bool isCompoundAssignSupported(Operator op,
+                                      const Type *lhs,
+                                      const Type *rhs)
+{
+    switch (op) {
+    case opAdd:
+    case opSub:
+    case opMul:
+    case opDiv:
+        return isNumericType(lhs) && isNumericType(rhs);
+    case opMod:
+    case opBAnd:
+    case opBOr:
+    case opBXor:
+    case opShl:
+    case opShr:
+        return isIntegralType(lhs) && isIntegralType(rhs);
+    default:
+        return true;
+    }
+}
+
 void checkAssignExpr(AstVisitor *visitor, AstNode *node)
 {
     TypingContext *ctx = getAstVisitorContext(visitor);
@@ -132,6 +154,17 @@ void checkAssignExpr(AstVisitor *visitor, AstNode *node)
                  (FormatArg[]){{.t = lhs}, {.t = rhs}});
         node->type = ERROR_TYPE(ctx);
     }
+    else if (!isCompoundAssignSupported(node->assignExpr.op, lhs, rhs)) {
+        logError(
+            ctx->L,
+            &node->loc,
+            "assignment operator '{s}' between type '{t}' and '{t}' is not "
+            "supported",
+            (FormatArg[]){{.s = getAssignOpString(node->assignExpr.op)},
+                          {.t = lhs},
+                          {.t = rhs}});
+        node->type = ERROR_TYPE(ctx);
+    }
 
     if (node->type == ERROR_TYPE(ctx))
         return;
-- 
2.43.0


From 42c1c44a871d23330a90f0f09747667b8c55e052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:09 +0000
Subject: [PATCH 43/67] fix: reject null comparisons of values and remainders
 of floats

---
 src/cxy/lang/middle/sema/binary.c | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/cxy/lang/middle/sema/binary.c b/src/cxy/lang/middle/sema/binary.c
index e0501f8..8533d96 100644
--- a/src/cxy/lang/middle/sema/binary.c
+++ b/src/cxy/lang/middle/sema/binary.c
@@ -166,6 +166,10 @@ void checkBinaryExpr(AstVisitor *visitor, AstNode *node)
     ctx->explicitCatch = node->binaryExpr.op == opCatch;
     bool currentReturnState = ctx->returnState;
     const Type *left = checkType(visitor, lhs), *left_ = stripAll(left);
+    if (typeIs(left, Error)) {
+        node->type = ERROR_TYPE(ctx);
+        return;
+    }
 
     Operator op = node->binaryExpr.op;
     BinaryOperatorKind opKind = getBinaryOperatorKind(op);
@@ -222,6 +226,15 @@ void checkBinaryExpr(AstVisitor *visitor, AstNode *node)
     }
 
     if (isNullEquality) {
+        const Type *nullable = resolveUnThisUnwrapType(left);
+        if (typeIs(nullable, Primitive) || typeIs(nullable, Enum)) {
+            logError(ctx->L,
+                     &node->loc,
+                     "type '{t}' cannot be compared with null",
+                     (FormatArg[]){{.t = left}});
+            node->type = ERROR_TYPE(ctx);
+            return;
+        }
         node->type = getPrimitiveType(ctx->types, prtBool);
         return;
     }
@@ -271,7 +284,7 @@ void checkBinaryExpr(AstVisitor *visitor, AstNode *node)
     switch (opKind) {
     case optNumeric:
 
-        if (isNumericType(type) ||
+        if ((isNumericType(type) && (op != opMod || isIntegralType(type))) ||
             (isPointerType(type) && (op == opAdd || op == opSub)))
             break;
 
@@ -358,7 +371,7 @@ void checkBinaryExpr(AstVisitor *visitor, AstNode *node)
                      &node->loc,
                      "expecting an integral type for range expression end, got "
                      "type '{t}'",
-                     (FormatArg[]){{.t = left}});
+                     (FormatArg[]){{.t = right}});
             node->type = ERROR_TYPE(ctx);
             return;
         }
-- 
2.43.0


From 2d6c5023021f3d63b8d09660491e79c5c7bebeb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:49 +0000
Subject: [PATCH 44/67] fix: only a pointer and an integer add up to a pointer

---
 src/cxy/lang/middle/sema/binary.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/cxy/lang/middle/sema/binary.c b/src/cxy/lang/middle/sema/binary.c
index 8533d96..bc85c08 100644
--- a/src/cxy/lang/middle/sema/binary.c
+++ b/src/cxy/lang/middle/sema/binary.c
@@ -285,7 +285,8 @@ void checkBinaryExpr(AstVisitor *visitor, AstNode *node)
     case optNumeric:
 
         if ((isNumericType(type) && (op != opMod || isIntegralType(type))) ||
-            (isPointerType(type) && (op == opAdd || op == opSub)))
+            (typeIs(type, Pointer) && isIntegralType(right) &&
+             (op == opAdd || op == opSub)))
             break;
 
         logError(ctx->L,
-- 
2.43.0


From 4ff7de59c5e87b4532717a36b8f8ed82fe53e9a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:51 +0000
Subject: [PATCH 45/67] fix: cast values of constant union and enum variables,
 and a union to itself

---
 src/cxy/lang/frontend/types.c           |  9 ++++++---
 src/cxy/lang/middle/sema/cast.c         | 14 ++++++++++----
 src/cxy/lang/middle/simplify/simplify.c |  3 ++-
 3 files changed, 18 insertions(+), 8 deletions(-)

diff --git a/src/cxy/lang/frontend/types.c b/src/cxy/lang/frontend/types.c
index c2c9050..50eb968 100644
--- a/src/cxy/lang/frontend/types.c
+++ b/src/cxy/lang/frontend/types.c
@@ -383,7 +383,9 @@ bool isTypeCastAssignable(const Type *to, const Type *from)
     }
 
     if (unwrappedTo->tag == unwrappedFrom->tag) {
-        if (to->tag != typPrimitive)
+        if (typeIs(unwrappedTo, Union) && unwrappedTo != unwrappedFrom)
+            return false;
+        if (unwrappedTo->tag != typPrimitive)
             return (fromFlags & flgConst) ? (toFlags & flgConst) : true;
     }
 
@@ -396,6 +398,7 @@ bool isTypeCastAssignable(const Type *to, const Type *from)
     case typPrimitive:
         if (typeIs(to, Optional))
             to = to->optional.target;
+        to = unwrapType(to, NULL);
         if (!typeIs(to, Primitive))
             return false;
         if (to->primitive.id == unwrappedFrom->primitive.id)
@@ -425,7 +428,7 @@ bool isTypeCastAssignable(const Type *to, const Type *from)
         }
     case typEnum:
         if (isIntegerType(to))
-            return isTypeCastAssignable(to, from->tEnum.base);
+            return isTypeCastAssignable(to, unwrappedFrom->tEnum.base);
     case typPointer:
         if (isVoidPointer(unwrappedFrom) &&
             (isClassType(unwrappedTo) || isStructPointer(unwrappedTo)))
@@ -436,7 +439,7 @@ bool isTypeCastAssignable(const Type *to, const Type *from)
             return true;
         return isTypeAssignableFrom(to, from);
     case typUnion:
-        return findUnionTypeIndex(from,
+        return findUnionTypeIndex(unwrappedFrom,
                                   typeIs(to, Pointer) ? to->pointer.pointed
                                                       : to) != UINT32_MAX;
     case typReference:
diff --git a/src/cxy/lang/middle/sema/cast.c b/src/cxy/lang/middle/sema/cast.c
index 6d2bd05..fb34ff5 100644
--- a/src/cxy/lang/middle/sema/cast.c
+++ b/src/cxy/lang/middle/sema/cast.c
@@ -136,10 +136,15 @@ void checkCastExpr(AstVisitor *visitor, AstNode *node)
         node->type = ERROR_TYPE(ctx);
         return;
     }
+    if (isUnionType(expr) && unwrapType(target, NULL) == unwrapType(expr, NULL)) {
+        replaceAstNodeWith(node, node->castExpr.expr);
+        return;
+    }
     node->type = target;
-    if (typeIs(expr, Union)) {
+    if (isUnionType(expr)) {
         node->castExpr.idx = findUnionTypeIndex(
-            expr, typeIs(target, Pointer) ? target->pointer.pointed : target);
+            unwrapType(expr, NULL),
+            typeIs(target, Pointer) ? target->pointer.pointed : target);
         csAssert0(node->castExpr.idx != UINT32_MAX);
     }
 
@@ -193,9 +198,10 @@ void checkTypedExpr(AstVisitor *visitor, AstNode *node)
     }
 
     castLiteral(ctx, node);
-    if (typeIs(expr, Union)) {
+    if (isUnionType(expr)) {
         node->castExpr.idx = findUnionTypeIndex(
-            expr, typeIs(type, Pointer) ? type->pointer.pointed : type);
+            unwrapType(expr, NULL),
+            typeIs(type, Pointer) ? type->pointer.pointed : type);
         csAssert0(node->castExpr.idx != UINT32_MAX);
     }
 
diff --git a/src/cxy/lang/middle/simplify/simplify.c b/src/cxy/lang/middle/simplify/simplify.c
index 6775ccc..24b3ef6 100644
--- a/src/cxy/lang/middle/simplify/simplify.c
+++ b/src/cxy/lang/middle/simplify/simplify.c
@@ -625,7 +625,8 @@ static void visitCastExpr(AstVisitor *visitor, AstNode *node)
     else if (isUnionType(expr->type) && !hasFlag(node, BitUnionCast)) {
         AstNode *builtinAssert = findBuiltinDecl(S___cxy_assert);
         csAssert0(builtinAssert);
-        u32 idx = findUnionTypeIndex(expr->type, stripReference(to->type));
+        u32 idx = findUnionTypeIndex(unwrapType(expr->type, NULL),
+                                     stripReference(to->type));
         csAssert0(idx != UINT32_MAX);
         AstNodeList args = {};
         insertAstNode(
-- 
2.43.0


From b75f03e5f365c81949b60a9cfafce982e8e71a15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:07 +0000
Subject: [PATCH 46/67] fix: enum conditions

---
 src/cxy/lang/middle/simplify/simplify.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/cxy/lang/middle/simplify/simplify.c b/src/cxy/lang/middle/simplify/simplify.c
index 24b3ef6..9642049 100644
--- a/src/cxy/lang/middle/simplify/simplify.c
+++ b/src/cxy/lang/middle/simplify/simplify.c
@@ -400,7 +400,8 @@ static void simplifyCastExpression(SimplifyContext *ctx,
 static void simplifyCondition(SimplifyContext *ctx, AstNode *cond)
 {
     AstNode *rhs = NULL, *lhs = deepCloneAstNode(ctx->pool, cond);
-    if (isIntegerType(cond->type)) {
+    if (isIntegerType(cond->type) ||
+        typeIs(resolveUnThisUnwrapType(cond->type), Enum)) {
         rhs = makeIntegerLiteral(ctx->pool, &cond->loc, 0, NULL, cond->type);
     }
     else if (isFloatType(cond->type)) {
-- 
2.43.0


From 64260c6be77bea3637fdf24e275c3bc467fd68c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:07 +0000
Subject: [PATCH 47/67] fix: a rejected argument rejects the call, and a
 variadic overload does not drop arguments of the next

---
 src/cxy/lang/middle/sema/call.c     | 3 ++-
 src/cxy/lang/middle/sema/function.c | 6 +++---
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/cxy/lang/middle/sema/call.c b/src/cxy/lang/middle/sema/call.c
index 8205d47..b6dfc26 100644
--- a/src/cxy/lang/middle/sema/call.c
+++ b/src/cxy/lang/middle/sema/call.c
@@ -291,7 +291,8 @@ void checkCallExpr(AstVisitor *visitor, AstNode *node)
                      &arg->loc,
                      "incompatible argument types, expecting '{t}' but got "
                      "'{t}'",
-                     (FormatArg[]){{.t = type}, {.t = type}});
+                     (FormatArg[]){{.t = type}, {.t = expr}});
+            node->type = ERROR_TYPE(ctx);
             prev = arg;
             continue;
         }
diff --git a/src/cxy/lang/middle/sema/function.c b/src/cxy/lang/middle/sema/function.c
index 10ced8b..84e91d9 100644
--- a/src/cxy/lang/middle/sema/function.c
+++ b/src/cxy/lang/middle/sema/function.c
@@ -95,14 +95,14 @@ const Type *matchOverloadedFunctionPerfectMatch(Log *L,
 
         declarations++;
 
-        argsCount =
+        u64 checkCount =
             isVariadic ? MIN(argsCount, paramsCount - isVariadic) : argsCount;
-        if (argsCount < requiredCount || argsCount > paramsCount)
+        if (checkCount < requiredCount || checkCount > paramsCount)
             continue;
 
         u64 score = maxScore;
         bool compatible = true;
-        for (u64 i = 0; i < argsCount; i++) {
+        for (u64 i = 0; i < checkCount; i++) {
             const Type *paramType = resolveAndUnThisType(type->func.params[i]),
                        *argType = resolveAndUnThisType(argTypes[i]);
             compatible = paramType == argType;
-- 
2.43.0


From 5b3c509f7ea7505661413e442ba5c816a1ff0506 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:07 +0000
Subject: [PATCH 48/67] fix: type a conditional without a middle operand, and
 name every option of a define

---
 src/cxy/lang/middle/sema/check.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/cxy/lang/middle/sema/check.c b/src/cxy/lang/middle/sema/check.c
index 2345781..a670342 100644
--- a/src/cxy/lang/middle/sema/check.c
+++ b/src/cxy/lang/middle/sema/check.c
@@ -102,7 +102,7 @@ static void checkDefine(AstVisitor *visitor, AstNode *node)
 
     cstring *names = mallocOrDie(sizeof(cstring) * count);
     name = node->define.names;
-    for (u64 i = 0; name; name = name->next) {
+    for (u64 i = 0; name; name = name->next, i++) {
         names[i] = name->ident.alias ?: name->ident.value;
     }
     qsort(names, count, sizeof(cstring), compareStrings);
@@ -767,7 +767,9 @@ static void checkTernaryExpr(AstVisitor *visitor, AstNode *node)
 {
     TypingContext *ctx = getAstVisitorContext(visitor);
     const Type *cond = checkType(visitor, node->ternaryExpr.cond);
-    const Type *body = checkType(visitor, node->ternaryExpr.body);
+    const Type *body = node->ternaryExpr.body
+                           ? checkType(visitor, node->ternaryExpr.body)
+                           : cond;
     const Type *otherwise = checkType(visitor, node->ternaryExpr.otherwise);
 
     if (typeIs(cond, Error) || //
-- 
2.43.0


From e4bced92cd0b6a9829ddf777e9c3a6326976d134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:37 +0000
Subject: [PATCH 49/67] fix: reject assignments to the characters of a string

---
 src/cxy/lang/middle/sema/assign.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cxy/lang/middle/sema/assign.c b/src/cxy/lang/middle/sema/assign.c
index e2ad1ae..0813fa8 100644
--- a/src/cxy/lang/middle/sema/assign.c
+++ b/src/cxy/lang/middle/sema/assign.c
@@ -75,7 +75,7 @@ void checkAssignExpr(AstVisitor *visitor, AstNode *node)
             return;
         }
         target = unwrapType(target, &flags);
-        if (isPointerType(target)) {
+        if (isPointerType(target) && !typeIs(target, String)) {
             lhs = typeIs(target, Pointer) ? target->pointer.pointed
                                           : target->array.elementType;
             left->type = lhs;
-- 
2.43.0


From 6928a675bc8fad93462658f808755f322cc7a973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:42:23 +0000
Subject: [PATCH 50/67] fix: a value yielded by catch converts to the value of
 the expression

---
 src/cxy/lang/middle/sema/check.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cxy/lang/middle/sema/check.c b/src/cxy/lang/middle/sema/check.c
index a670342..5efef51 100644
--- a/src/cxy/lang/middle/sema/check.c
+++ b/src/cxy/lang/middle/sema/check.c
@@ -301,7 +301,7 @@ static void checkYieldStmt(AstVisitor *visitor, AstNode *node)
 
     const Type *target = getResultTargetType(lhs->type);
     if (block->type == NULL) {
-        if (!isTypeAssignableFrom(lhs->type, type)) {
+        if (!isTypeAssignableFrom(target, type)) {
             logError(ctx->L,
                      &node->loc,
                      "catch yield value '{t}' not assignable to expression "
-- 
2.43.0


From 7f5044366dd356d0156cf21031a962aa767b77e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:08 +0000
Subject: [PATCH 51/67] fix: a caught call does not leave the exceptions of its
 arguments uncaught

---
 src/cxy/lang/middle/sema/call.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/cxy/lang/middle/sema/call.c b/src/cxy/lang/middle/sema/call.c
index b6dfc26..264f0fa 100644
--- a/src/cxy/lang/middle/sema/call.c
+++ b/src/cxy/lang/middle/sema/call.c
@@ -168,8 +168,11 @@ void checkCallExpr(AstVisitor *visitor, AstNode *node)
     u64 flags = getCalleeContextFlags(callee);
     bool explicitCatch = ctx->explicitCatch;
 
+    // only this call is caught, not those in its callee or arguments
+    ctx->explicitCatch = false;
     const Type *callee_ = checkType(visitor, callee);
 
+    ctx->explicitCatch = explicitCatch;
     ctx->currentCall = currentCall;
 
     if (callee_ == NULL || typeIs(callee_, Error)) {
@@ -272,6 +275,7 @@ void checkCallExpr(AstVisitor *visitor, AstNode *node)
         return;
     }
 
+    ctx->explicitCatch = false;
     checkFunctionCallEpilogue(visitor, callee_, node, flags);
     if (typeIs(node->type, Error))
         return;
-- 
2.43.0


From e06e16c80827cc8fa2df01266debd113d1c0f8a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:48:43 +0000
Subject: [PATCH 52/67] fix: report an error wherever the type checker and the
 evaluator reject a node

---
 src/cxy/lang/middle/eval/eval.c     |  5 +++++
 src/cxy/lang/middle/eval/macro.c    |  2 +-
 src/cxy/lang/middle/eval/member.c   |  4 ++++
 src/cxy/lang/middle/eval/path.c     |  9 +++++++++
 src/cxy/lang/middle/sema/generics.c |  9 ++++++++-
 src/cxy/lang/middle/sema/member.c   |  5 +----
 src/cxy/lang/middle/sema/path.c     | 12 ++++++++++++
 7 files changed, 40 insertions(+), 6 deletions(-)

diff --git a/src/cxy/lang/middle/eval/eval.c b/src/cxy/lang/middle/eval/eval.c
index 6651b3a..5d1e3f6 100644
--- a/src/cxy/lang/middle/eval/eval.c
+++ b/src/cxy/lang/middle/eval/eval.c
@@ -231,6 +231,11 @@ void evalAssignExpr(AstVisitor *visitor, AstNode *node)
     AstNode *resolved = getResolvedPath(left);
 
     if (!nodeIs(resolved, VarDecl)) {
+        EvalContext *ctx = getAstVisitorContext(visitor);
+        logError(ctx->L,
+                 &left->loc,
+                 "only compile time variables can be assigned at compile time",
+                 NULL);
         node->tag = astError;
         return;
     }
diff --git a/src/cxy/lang/middle/eval/macro.c b/src/cxy/lang/middle/eval/macro.c
index b5989fc..359295c 100644
--- a/src/cxy/lang/middle/eval/macro.c
+++ b/src/cxy/lang/middle/eval/macro.c
@@ -1298,7 +1298,7 @@ static AstNode *makeDestructorNode(AstVisitor *visitor,
                                    AstNode *args)
 {
     EvalContext *ctx = getAstVisitorContext(visitor);
-    if (args == NULL || !validateMacroArgumentCount(ctx, &node->loc, args, 1))
+    if (!validateMacroArgumentCount(ctx, &node->loc, args, 1))
         return NULL;
 
     const Type *type = args->type ?: evalType(ctx, args);
diff --git a/src/cxy/lang/middle/eval/member.c b/src/cxy/lang/middle/eval/member.c
index 3df6d0f..32b54f6 100644
--- a/src/cxy/lang/middle/eval/member.c
+++ b/src/cxy/lang/middle/eval/member.c
@@ -91,6 +91,10 @@ void evalMemberExpr(AstVisitor *visitor, AstNode *node)
             member->ident.value,
             hasFlag(node, Annotation));
         if (value == NULL) {
+            logError(ctx->L,
+                     &member->loc,
+                     "undefined compile time member named '{s}'",
+                     (FormatArg[]){{.s = member->ident.value}});
             node->tag = astError;
             return;
         }
diff --git a/src/cxy/lang/middle/eval/path.c b/src/cxy/lang/middle/eval/path.c
index db60a09..b325de5 100644
--- a/src/cxy/lang/middle/eval/path.c
+++ b/src/cxy/lang/middle/eval/path.c
@@ -73,6 +73,10 @@ void evalPathEpilogue(AstVisitor *visitor,
 
     if (hasFlag(node, Typeinfo)) {
         if (symbol->type == NULL) {
+            logError(ctx->L,
+                     &node->loc,
+                     "the type of this expression is not known at compile time",
+                     NULL);
             node->tag = astError;
             return;
         }
@@ -173,6 +177,11 @@ void evalPath(AstVisitor *visitor, AstNode *node)
     if (elem->pathElement.args && typeIs(symbol->type, Generic)) {
         const Type *type =
             resolveGenericDecl(ctx->typer, elem->pathElement.resolvesTo, elem);
+        if (type == NULL)
+            logError(ctx->L,
+                     &elem->loc,
+                     "'{s}' depends on itself",
+                     (FormatArg[]){{.s = elem->pathElement.name}});
         if (type == NULL || typeIs(type, Error)) {
             node->tag = astError;
             return;
diff --git a/src/cxy/lang/middle/sema/generics.c b/src/cxy/lang/middle/sema/generics.c
index 1905543..ee2df33 100644
--- a/src/cxy/lang/middle/sema/generics.c
+++ b/src/cxy/lang/middle/sema/generics.c
@@ -300,8 +300,15 @@ const Type *resolveGenericDecl(AstVisitor *visitor,
         paramsCount = type->generic.paramsCount + variadicArgumentsCount;
     const Type **paramTypes = NULL;
 
-    if (argsCount > paramsCount)
+    if (argsCount > paramsCount) {
+        logError(ctx->L,
+                 &node->loc,
+                 "too many arguments for generic declaration, expecting at "
+                 "most {u64}, got {u64}",
+                 (FormatArg[]){{.u64 = paramsCount}, {.u64 = argsCount}});
+        logNote(ctx->L, &generic->loc, "generic declared here", NULL);
         return node->type = ERROR_TYPE(ctx);
+    }
 
     paramTypes = mallocOrDie(sizeof(Type *) * paramsCount);
     for (; arg; index++, arg = arg->next) {
diff --git a/src/cxy/lang/middle/sema/member.c b/src/cxy/lang/middle/sema/member.c
index 8d3ff9d..0efefc5 100644
--- a/src/cxy/lang/middle/sema/member.c
+++ b/src/cxy/lang/middle/sema/member.c
@@ -13,11 +13,8 @@ static const Type *determineMemberTargetType(TypingContext *ctx,
                                              const AstNode *parent,
                                              AstNode *node)
 {
-    if (parent == NULL)
-        return NULL;
-
     const Type *type = NULL;
-    switch (parent->tag) {
+    switch (parent ? parent->tag : astError) {
     case astVarDecl:
         type = parent->varDecl.type ? parent->varDecl.type->type : NULL;
         break;
diff --git a/src/cxy/lang/middle/sema/path.c b/src/cxy/lang/middle/sema/path.c
index f8e9ddd..4db500b 100644
--- a/src/cxy/lang/middle/sema/path.c
+++ b/src/cxy/lang/middle/sema/path.c
@@ -89,6 +89,12 @@ const Type *checkMember(AstVisitor *visitor, const Type *parent, AstNode *node)
     case typClass:
         decl = resolveMemberUpInheritance(ctx, parent, node, &flags, name, 0);
         resolved = decl ? decl->type : NULL;
+        if (decl && resolved == NULL) {
+            logError(ctx->L,
+                     &node->loc,
+                     "the type of member '{s}' of '{t}' is not known here",
+                     (FormatArg[]){{.s = name}, {.t = parent}});
+        }
         break;
     case typInterface:
     case typModule:
@@ -98,6 +104,12 @@ const Type *checkMember(AstVisitor *visitor, const Type *parent, AstNode *node)
     case typException:
         decl = findInAstNode(parent->exception.decl, name);
         resolved = decl ? decl->type : NULL;
+        if (resolved == NULL) {
+            logError(ctx->L,
+                     &node->loc,
+                     "exception '{t}' does not have a member named '{s}'",
+                     (FormatArg[]){{.t = parent}, {.s = name}});
+        }
         break;
     default:
         logError(ctx->L,
-- 
2.43.0


From f37bd27fba72baa5588bded0f2d187e41117196f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:55:18 +0000
Subject: [PATCH 53/67] fix: exceptions raised inside a closure belong to the
 closure

---
 src/cxy/lang/middle/sema/closure.c   | 3 +++
 src/cxy/lang/middle/sema/exception.c | 9 +++++++--
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/cxy/lang/middle/sema/closure.c b/src/cxy/lang/middle/sema/closure.c
index 62ee0a0..21c2361 100644
--- a/src/cxy/lang/middle/sema/closure.c
+++ b/src/cxy/lang/middle/sema/closure.c
@@ -408,7 +408,10 @@ void checkClosureExpr(AstVisitor *visitor, AstNode *node)
          currentExplicitCatch = ctx->explicitCatch;
     ctx->returnState = false;
     ctx->explicitCatch = false;
+    AstNode *currentFunction = ctx->currentFunction;
+    ctx->currentFunction = node;
     const Type *body_ = checkType(visitor, body);
+    ctx->currentFunction = currentFunction;
     ctx->returnState = currentReturnState;
     ctx->explicitCatch = currentExplicitCatch;
     if (typeIs(body_, Error)) {
diff --git a/src/cxy/lang/middle/sema/exception.c b/src/cxy/lang/middle/sema/exception.c
index 64a2335..e9b2993 100644
--- a/src/cxy/lang/middle/sema/exception.c
+++ b/src/cxy/lang/middle/sema/exception.c
@@ -351,8 +351,13 @@ void checkCallExceptionBubbleUp(AstVisitor *visitor, AstNode *node)
     const Type *type = node->type;
     if (!isResultType(type))
         return;
-    const Type *ret = ctx->currentFunction->type->func.retType;
-    if (!isResultType(ret)) {
+    AstNode *func = ctx->currentFunction;
+    const Type *ret = NULL;
+    if (nodeIs(func, ClosureExpr))
+        ret = func->closureExpr.ret ? func->closureExpr.ret->type : NULL;
+    else if (func)
+        ret = func->type->func.retType;
+    if (ret == NULL || !isResultType(ret)) {
         logError(ctx->L,
                  &node->loc,
                  "all exception must be handled when callees that raise are "
-- 
2.43.0


From f6a707f55f775d5fa0c05d3c2b26dac868432eb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:00:36 +0000
Subject: [PATCH 54/67] fix: catch on an expression that does not raise is
 rejected before its block is checked

---
 src/cxy/lang/middle/sema/binary.c    | 10 ++++++++++
 src/cxy/lang/middle/sema/exception.c |  9 ---------
 2 files changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/cxy/lang/middle/sema/binary.c b/src/cxy/lang/middle/sema/binary.c
index bc85c08..9a89add 100644
--- a/src/cxy/lang/middle/sema/binary.c
+++ b/src/cxy/lang/middle/sema/binary.c
@@ -209,6 +209,16 @@ void checkBinaryExpr(AstVisitor *visitor, AstNode *node)
             return;
     }
 
+    if (op == opCatch && !isResultType(left)) {
+        // the catch block is checked against the type of the expression
+        logError(ctx->L,
+                 &lhs->loc,
+                 "catch used with a statement that does not throw",
+                 NULL);
+        node->type = ERROR_TYPE(ctx);
+        return;
+    }
+
     node->binaryExpr.rhs->parentScope = node;
 
     __typeof(ctx->catcher) catcher = ctx->catcher, newCatcher = {};
diff --git a/src/cxy/lang/middle/sema/exception.c b/src/cxy/lang/middle/sema/exception.c
index e9b2993..ac52afe 100644
--- a/src/cxy/lang/middle/sema/exception.c
+++ b/src/cxy/lang/middle/sema/exception.c
@@ -248,15 +248,6 @@ void checkCatchBinaryOperator(AstVisitor *visitor,
     const Type *lhsType = resolveUnThisUnwrapType(lhs->type),
                *rhsType = resolveUnThisUnwrapType(rhs->type);
 
-    if (!isResultType(lhsType)) {
-        logError(ctx->L,
-                 &lhs->loc,
-                 "catch used with a statement that does not throw",
-                 NULL);
-        node->type = ERROR_TYPE(ctx);
-        return;
-    }
-
     if (!ctx->returnState) {
         if (isVoidType(rhsType) && !isVoidResultType(lhsType)) {
             logError(ctx->L,
-- 
2.43.0


From 3a30a6424d99b1ce0d09aa1bc6ad41f7221a3a6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:01:41 +0000
Subject: [PATCH 55/67] fix: a catch nested in the block of another has its own
 result

---
 src/cxy/lang/middle/sema/binary.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/cxy/lang/middle/sema/binary.c b/src/cxy/lang/middle/sema/binary.c
index 9a89add..858313f 100644
--- a/src/cxy/lang/middle/sema/binary.c
+++ b/src/cxy/lang/middle/sema/binary.c
@@ -226,6 +226,8 @@ void checkBinaryExpr(AstVisitor *visitor, AstNode *node)
     ctx->catcher.block = rhs;
     ctx->catcher.variable = NULL;
     ctx->catcher.ex = NULL;
+    // a catch nested in the block of another has its own result
+    ctx->catcher.result = NULL;
     const Type *right = checkType(visitor, node->binaryExpr.rhs);
     newCatcher = ctx->catcher;
     ctx->catcher = catcher;
-- 
2.43.0


From 52f3648c4be058cc08c83a0f10c24c9050379e07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:02:01 +0000
Subject: [PATCH 56/67] fix: every value yielded by a catch block is assignable
 to the expression

---
 src/cxy/lang/middle/sema/check.c | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/cxy/lang/middle/sema/check.c b/src/cxy/lang/middle/sema/check.c
index 5efef51..ca64caf 100644
--- a/src/cxy/lang/middle/sema/check.c
+++ b/src/cxy/lang/middle/sema/check.c
@@ -300,16 +300,16 @@ static void checkYieldStmt(AstVisitor *visitor, AstNode *node)
     node->type = type;
 
     const Type *target = getResultTargetType(lhs->type);
+    if (!isTypeAssignableFrom(target, type)) {
+        logError(ctx->L,
+                 &node->loc,
+                 "catch yield value '{t}' not assignable to expression "
+                 "type '{t}'",
+                 (FormatArg[]){{.t = type}, {.t = target}});
+        node->type = ERROR_TYPE(ctx);
+        return;
+    }
     if (block->type == NULL) {
-        if (!isTypeAssignableFrom(target, type)) {
-            logError(ctx->L,
-                     &node->loc,
-                     "catch yield value '{t}' not assignable to expression "
-                     "type '{t}'",
-                     (FormatArg[]){{.t = type}, {.t = target}});
-            node->type = ERROR_TYPE(ctx);
-            return;
-        }
         block->type = type;
         node->type = type;
     }
-- 
2.43.0


From c6970b7b5e0e0ac0452f10f19c10b110d38c887d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:43:25 +0000
Subject: [PATCH 57/67] fix: break and continue do not reach a loop outside of
 their closure

---
 src/cxy/lang/middle/bind/scope.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/cxy/lang/middle/bind/scope.c b/src/cxy/lang/middle/bind/scope.c
index 7d189d0..5e27db7 100644
--- a/src/cxy/lang/middle/bind/scope.c
+++ b/src/cxy/lang/middle/bind/scope.c
@@ -279,6 +279,10 @@ static inline AstNode *findEnclosingScope(Env *env,
             scope->node->tag == secondTag || //
             scope->node->tag == thirdTag)
             return scope->node;
+        // a loop does not extend into the functions declared in its body
+        if (firstTag == astWhileStmt &&
+            (nodeIs(scope->node, ClosureExpr) || nodeIs(scope->node, FuncDecl)))
+            break;
     }
     if (L) {
         logError(L,
-- 
2.43.0


From 7b8b3ad8a960d97f616da8f95f64c7485368c656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:43:25 +0000
Subject: [PATCH 58/67] fix: 'this' outside of any function is rejected

---
 src/cxy/lang/middle/bind/resolve.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/cxy/lang/middle/bind/resolve.c b/src/cxy/lang/middle/bind/resolve.c
index afe2948..2350c6c 100644
--- a/src/cxy/lang/middle/bind/resolve.c
+++ b/src/cxy/lang/middle/bind/resolve.c
@@ -241,7 +241,8 @@ void bindPath(AstVisitor *visitor, AstNode *node)
         else {
             AstNode *func =
                 findEnclosingFunction(ctx->env, NULL, keyword, NULL);
-            if (keyword == S_this && nodeIs(func->parentScope, Exception)) {
+            if (keyword == S_this && func &&
+                nodeIs(func->parentScope, Exception)) {
                 base->pathElement.resolvesTo =
                     findSymbol(ctx->env, ctx->L, S_this, &base->loc);
             }
-- 
2.43.0


From 3bc46f39c55b6928b752b1d46b989227be878c96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:43:44 +0000
Subject: [PATCH 59/67] fix: cases that are ranges or share the next case's
 body are generated

---
 src/cxy/lang/backend/c/generate.c       | 41 +++++++++++++++----------
 src/cxy/lang/frontend/parser.c          | 29 +++++++++++++----
 src/cxy/lang/middle/simplify/simplify.c |  2 +-
 3 files changed, 49 insertions(+), 23 deletions(-)

diff --git a/src/cxy/lang/backend/c/generate.c b/src/cxy/lang/backend/c/generate.c
index 965e30f..1c593cd 100644
--- a/src/cxy/lang/backend/c/generate.c
+++ b/src/cxy/lang/backend/c/generate.c
@@ -1624,25 +1624,34 @@ static void visitCaseStmt(ConstAstVisitor *visitor, const AstNode *node)
 {
     CodegenContext *ctx = getConstAstVisitorContext(visitor);
     addDebugInfo(ctx, node);
-    const AstNode *body = node->caseStmt.body;
-    if (node->caseStmt.match) {
+    const AstNode *body = node->caseStmt.body, *match = node->caseStmt.match;
+    if (match == NULL)
+        format(getState(ctx), "default", NULL);
+    else if (nodeIs(node->parentScope, MatchStmt))
+        format(getState(ctx),
+               "case {u32}",
+               (FormatArg[]){{.u32 = node->caseStmt.idx}});
+    else {
         format(getState(ctx), "case ", NULL);
-        if (nodeIs(node->parentScope, MatchStmt)) {
-            format(getState(ctx),
-                   "{u32}: {{{>}\n",
-                   (FormatArg[]){{.u32 = node->caseStmt.idx}});
-            if (node->caseStmt.variable) {
-                astConstVisit(visitor, node->caseStmt.variable);
-                format(getState(ctx), "\n", NULL);
-            }
-        }
-        else {
-            astConstVisit(visitor, node->caseStmt.match);
-            format(getState(ctx), ": {{{>}\n", NULL);
+        if (nodeIs(match, RangeExpr)) {
+            astConstVisit(visitor, match->rangeExpr.start);
+            format(getState(ctx), " ... ", NULL);
+            astConstVisit(visitor, match->rangeExpr.end);
         }
+        else
+            astConstVisit(visitor, match);
     }
-    else {
-        format(getState(ctx), "default: {{{>}\n", NULL);
+
+    if (body == NULL) {
+        // shares the body of the next case
+        format(getState(ctx), ":", NULL);
+        return;
+    }
+
+    format(getState(ctx), ": {{{>}\n", NULL);
+    if (nodeIs(node->parentScope, MatchStmt) && node->caseStmt.variable) {
+        astConstVisit(visitor, node->caseStmt.variable);
+        format(getState(ctx), "\n", NULL);
     }
     addDebugInfo(ctx, body);
     astConstVisit(visitor, body);
diff --git a/src/cxy/lang/frontend/parser.c b/src/cxy/lang/frontend/parser.c
index e2dc1dc..dbeebf2 100644
--- a/src/cxy/lang/frontend/parser.c
+++ b/src/cxy/lang/frontend/parser.c
@@ -2422,6 +2422,23 @@ static AstNode *whileStatement(Parser *P)
                                  .whileStmt = {.cond = cond, .body = body}});
 }
 
+// A case without a body shares the body of the case that follows it
+static AstNode *caseBody(Parser *P)
+{
+    if (check(P, tokCase, tokDefault, tokElse, tokRBrace))
+        return newAstNode(P, current(P), &(AstNode){.tag = astBlockStmt});
+    return statement(P, false);
+}
+
+static void checkNextCase(Parser *P)
+{
+    if (check(P, tokRBrace, tokEoF))
+        parserError(P,
+                    &current(P)->fileLoc,
+                    "expecting another case after ','",
+                    NULL);
+}
+
 static AstNode *caseStatement(Parser *P)
 {
     u64 flags = flgNone;
@@ -2440,10 +2457,10 @@ static AstNode *caseStatement(Parser *P)
 
     if (!match(P, tokComma)) {
         consume0(P, tokFatArrow);
-        if (!check(P, tokCase, tokRBrace)) {
-            body = statement(P, false);
-        }
+        body = caseBody(P);
     }
+    else
+        checkNextCase(P);
 
     return newAstNode(P,
                       &tok,
@@ -2507,10 +2524,10 @@ static AstNode *matchCaseStatement(Parser *P)
         // either case X { or case =>
         if (!check(P, tokLBrace))
             consume0(P, tokFatArrow);
-        if (!check(P, tokCase, tokRBrace)) {
-            body = statement(P, false);
-        }
+        body = caseBody(P);
     }
+    else
+        checkNextCase(P);
 
     return newAstNode(
         P,
diff --git a/src/cxy/lang/middle/simplify/simplify.c b/src/cxy/lang/middle/simplify/simplify.c
index 9642049..04a45a7 100644
--- a/src/cxy/lang/middle/simplify/simplify.c
+++ b/src/cxy/lang/middle/simplify/simplify.c
@@ -1200,7 +1200,7 @@ void visitMatchStmt(AstVisitor *visitor, AstNode *node)
                 esac->caseStmt.variable = NULL;
             }
         }
-        else if (!nodeIs(body, BlockStmt)) {
+        else if (body && !nodeIs(body, BlockStmt)) {
             esac->caseStmt.body = makeBlockStmt(
                 ctx->pool, &body->loc, body, NULL, makeVoidType(ctx->types));
         }
-- 
2.43.0


From 58bdd1083c6036f2b3492dfc1bc2a05947552a2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:43:44 +0000
Subject: [PATCH 60/67] fix: cases of a match are compared by the union member
 they select

---
 src/cxy/lang/middle/sema/match.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cxy/lang/middle/sema/match.c b/src/cxy/lang/middle/sema/match.c
index 4ae9533..900cca8 100644
--- a/src/cxy/lang/middle/sema/match.c
+++ b/src/cxy/lang/middle/sema/match.c
@@ -16,7 +16,7 @@ static inline bool isSameCase(const AstNode *lhs, const AstNode *rhs)
         return true;
     if ((lhs->caseStmt.match == NULL) || (rhs->caseStmt.match == NULL))
         return false;
-    return lhs->caseStmt.match->type == rhs->caseStmt.match->type;
+    return lhs->caseStmt.idx == rhs->caseStmt.idx;
 }
 
 void checkMatchCaseStmt(AstVisitor *visitor, AstNode *node)
-- 
2.43.0


From 2e83ee58b924a818ed53bd0779e5ae69b29d71d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:43:44 +0000
Subject: [PATCH 61/67] fix: switch labels are compared in order, checked
 against the range of the pattern, and have one default

---
 src/cxy/lang/frontend/ttable.c    |  2 +-
 src/cxy/lang/middle/sema/switch.c | 56 +++++++++++++++++++++++++------
 2 files changed, 47 insertions(+), 11 deletions(-)

diff --git a/src/cxy/lang/frontend/ttable.c b/src/cxy/lang/frontend/ttable.c
index e9d937f..f4d296a 100644
--- a/src/cxy/lang/frontend/ttable.c
+++ b/src/cxy/lang/frontend/ttable.c
@@ -1458,7 +1458,7 @@ bool isIntegerTypeInRange(const Type *type, i64 min, i64 max)
 {
     csAssert0(min <= max);
     const IntMinMax minMax = getIntegerTypeMinMax(type);
-    if (isSignedType(type))
+    if (isSignedType(type) || typeIs(type, Enum))
         return min <= (i64)minMax.s && max >= minMax.f;
     else
         return (u64)min <= minMax.s && max >= minMax.f;
diff --git a/src/cxy/lang/middle/sema/switch.c b/src/cxy/lang/middle/sema/switch.c
index a462284..818a63d 100644
--- a/src/cxy/lang/middle/sema/switch.c
+++ b/src/cxy/lang/middle/sema/switch.c
@@ -28,8 +28,10 @@ static i64 getLiteralValue(const AstNode *node)
 {
     if (typeIs(node->type, Enum))
         return getEnumLiteralValue(node);
-    else if (isCharacterType(node->type))
+    else if (nodeIs(node, CharLit))
         return node->charLiteral.value;
+    else if (nodeIs(node, BoolLit))
+        return node->boolLiteral.value;
     return integerLiteralValue(node);
 }
 
@@ -70,11 +72,11 @@ static int compareLiteralNode(const void *left, const void *right)
     }
     else if (nodeIs(lhs, RangeExpr)) {
         csAssert0(isIntegralLiteral(rhs));
-        return isIntegerInRange(lhs, getLiteralValue(rhs));
+        return -isIntegerInRange(lhs, getLiteralValue(rhs));
     }
     else if (nodeIs(rhs, RangeExpr)) {
         csAssert0(isIntegralLiteral(lhs));
-        return -isIntegerInRange(rhs, getLiteralValue(lhs));
+        return isIntegerInRange(rhs, getLiteralValue(lhs));
     }
 
     csAssert0(isLiteralExpr(lhs));
@@ -117,13 +119,25 @@ void checkDuplicateCaseMatches(TypingContext *ctx,
                     &prev->node->loc,
                     "previous similar match statement here",
                     NULL);
-            cases[i].node->type = ERROR_TYPE(ctx);
-            node->type = cases[i].node->type;
+            node->type = ERROR_TYPE(ctx);
         }
         prev = &cases[i];
     }
 }
 
+static bool isCaseTypeCompatible(const Type *match, const Type *cond)
+{
+    // An integer case is also compared against the range of the pattern type
+    return isTypeAssignableFrom(match, cond) ||
+           (isIntegerType(match) && isIntegerType(cond)) ||
+           (isCharacterType(match) && isCharacterType(cond));
+}
+
+static inline bool isIntegralCase(const AstNode *node)
+{
+    return isIntegralLiteral(node) && !nodeIs(node, FloatLit);
+}
+
 void checkCaseStmt(AstVisitor *visitor, AstNode *node)
 {
     TypingContext *ctx = getAstVisitorContext(visitor);
@@ -135,12 +149,13 @@ void checkCaseStmt(AstVisitor *visitor, AstNode *node)
         return;
     }
 
-    const Type *cond =
-        getParentScopeWithTag(node, astSwitchStmt)->switchStmt.cond->type;
+    const Type *cond = unwrapType(
+        getParentScopeWithTag(node, astSwitchStmt)->switchStmt.cond->type,
+        NULL);
 
     if (node->caseStmt.match) {
         const Type *match = checkType(visitor, node->caseStmt.match);
-        if (!isTypeAssignableFrom(match, cond)) {
+        if (!isCaseTypeCompatible(match, cond)) {
             logError(
                 ctx->L,
                 &node->caseStmt.match->loc,
@@ -154,7 +169,7 @@ void checkCaseStmt(AstVisitor *visitor, AstNode *node)
         if (nodeIs(node->caseStmt.match, RangeExpr)) {
             AstNode *min = node->caseStmt.match->rangeExpr.start,
                     *max = node->caseStmt.match->rangeExpr.end;
-            if (!isIntegralLiteral(min) || !isIntegralLiteral(max)) {
+            if (!isIntegralCase(min) || !isIntegralCase(max)) {
                 logError(ctx->L,
                          &node->caseStmt.match->loc,
                          "switch case statement match of type '{t}' must be a "
@@ -165,6 +180,15 @@ void checkCaseStmt(AstVisitor *visitor, AstNode *node)
             }
 
             i64 iMin = getLiteralValue(min), iMax = getLiteralValue(max);
+            if (iMin > iMax) {
+                logError(ctx->L,
+                         &node->caseStmt.match->loc,
+                         "switch case statement range ({i64} - {i64}) is empty",
+                         (FormatArg[]){{.i64 = iMin}, {.i64 = iMax}});
+                node->type = ERROR_TYPE(ctx);
+                return;
+            }
+
             if (!isIntegerTypeInRange(cond, iMin, iMax)) {
                 logError(
                     ctx->L,
@@ -177,7 +201,7 @@ void checkCaseStmt(AstVisitor *visitor, AstNode *node)
                 return;
             }
         }
-        else if (isIntegralLiteral(node->caseStmt.match)) {
+        else if (isIntegralCase(node->caseStmt.match)) {
             i64 value = getLiteralValue(node->caseStmt.match);
             if (!isIntegerTypeInRange(cond, value, value)) {
                 logError(
@@ -260,6 +284,7 @@ void checkSwitchStmt(AstVisitor *visitor, AstNode *node)
 
     const Type *type = NULL;
     case_ = node->matchStmt.cases;
+    node->switchStmt.defaultCase = NULL;
     u64 i = 0;
     for (; case_; case_ = case_->next) {
         case_->parentScope = node;
@@ -268,6 +293,17 @@ void checkSwitchStmt(AstVisitor *visitor, AstNode *node)
         if (case_->caseStmt.match)
             matches[i++] = (NodeComparisonContext){
                 .node = case_->caseStmt.match, .ctx = ctx};
+        else if (node->switchStmt.defaultCase) {
+            logError(ctx->L,
+                     &case_->loc,
+                     "duplicate default case on switch statement prohibited",
+                     NULL);
+            logNote(ctx->L,
+                    &node->switchStmt.defaultCase->loc,
+                    "previous default case here",
+                    NULL);
+            node->type = ERROR_TYPE(ctx);
+        }
         else
             node->switchStmt.defaultCase = case_;
     }
-- 
2.43.0


From ac4b331b0cc3f8797d02218731fb372834fd9d51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:07:49 +0000
Subject: [PATCH 62/67] fix: names of generic instances tell their arguments
 apart

---
 src/cxy/lang/backend/c/generate.c |  2 +-
 src/cxy/lang/middle/mangle.c      | 27 ++++++++++++++++++---------
 2 files changed, 19 insertions(+), 10 deletions(-)

diff --git a/src/cxy/lang/backend/c/generate.c b/src/cxy/lang/backend/c/generate.c
index 1c593cd..a8c92c4 100644
--- a/src/cxy/lang/backend/c/generate.c
+++ b/src/cxy/lang/backend/c/generate.c
@@ -1825,7 +1825,7 @@ static void generateTestMainFunction(CodegenContext *ctx,
     format(getState(ctx),
            "int main(int argc, char *argv[]) {{{>}\n"
            "return builtins_runTests((SliceI_sE){{.data = argv, .len = argc}, "
-           "\"{s}\", (SliceI_TsFU_ZVoid_ZException____E){{",
+           "\"{s}\", (SliceI_TsFU_Z4Void_Z9Exception____E){{",
            (FormatArg[]){{.s = testFile}});
     if (ctx->hasTestCases) {
         format(getState(ctx),
diff --git a/src/cxy/lang/middle/mangle.c b/src/cxy/lang/middle/mangle.c
index 2e0333d..531afdf 100644
--- a/src/cxy/lang/middle/mangle.c
+++ b/src/cxy/lang/middle/mangle.c
@@ -8,6 +8,8 @@
 #include <lang/frontend/flag.h>
 #include <lang/frontend/ttable.h>
 
+#include <string.h>
+
 static void mangleAstNode(FormatState *state, const AstNode *node, u64 idx)
 {
     switch (node->tag) {
@@ -18,13 +20,14 @@ static void mangleAstNode(FormatState *state, const AstNode *node, u64 idx)
         format(state, "Lb_{b}", (FormatArg[]){{.b = node->boolLiteral.value}});
         break;
     case astCharLit:
-        format(state, "Lc_{c}", (FormatArg[]){{.c = node->charLiteral.value}});
+        format(
+            state, "Lc_{u32}", (FormatArg[]){{.u32 = node->charLiteral.value}});
         break;
     case astIntegerLit:
         if (node->intLiteral.isNegative)
             format(state,
-                   "Li_{i64}",
-                   (FormatArg[]){{.i64 = node->intLiteral.value}});
+                   "Li_{u64}",
+                   (FormatArg[]){{.u64 = -(u64)node->intLiteral.value}});
         else
             format(state,
                    "Lu_{u64}",
@@ -46,7 +49,7 @@ static void mangleType(FormatState *state, const Type *type)
     u64 flags = flgNone;
     type = unwrapType(type, &flags);
     if (flags & flgConst) {
-        append(state, "c", 1);
+        append(state, "K", 1);
     }
     type = resolveType(type);
 
@@ -111,13 +114,19 @@ static void mangleType(FormatState *state, const Type *type)
         mangleAstNode(state, type->literal.value, type->index);
         break;
     default:
+        // names are preceded by their lengths, so that none runs into the next
+        if (type->name == NULL) {
+            format(state, "X{u64}_", (FormatArg[]){{.u64 = type->index}});
+            break;
+        }
         append(state, "Z", 1);
         if (type->ns)
-            appendString(state, type->ns);
-        if (type->name != NULL) {
-            appendString(state, type->name);
-        }
-        append(state, "_", 1);
+            format(state,
+                   "N{u64}{s}",
+                   (FormatArg[]){{.u64 = strlen(type->ns)}, {.s = type->ns}});
+        format(state,
+               "{u64}{s}_",
+               (FormatArg[]){{.u64 = strlen(type->name)}, {.s = type->name}});
         break;
     }
 }
-- 
2.43.0


From 652685f0c8f32f2211d5ee2c14dc63dce85a8e33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:07:49 +0000
Subject: [PATCH 63/67] fix: removing a type from the type table returns that
 type

---
 src/cxy/lang/frontend/ttable.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/cxy/lang/frontend/ttable.c b/src/cxy/lang/frontend/ttable.c
index f4d296a..fee14a8 100644
--- a/src/cxy/lang/frontend/ttable.c
+++ b/src/cxy/lang/frontend/ttable.c
@@ -533,8 +533,9 @@ const Type *removeFromTypeTable(TypeTable *table, const Type *type)
                                          sizeof(Type *),
                                          compareTypesWrapper);
     if (found) {
+        const Type *removed = *found;
         removeFromHashTable(&table->types, found, sizeof(Type *));
-        return *found;
+        return removed;
     }
     return NULL;
 }
-- 
2.43.0


From 91b9f3d9fe6a2799763cf6b6d54119cd40ee94f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:10:35 +0000
Subject: [PATCH 64/67] fix: a class inherits each field of its bases once

---
 src/cxy/lang/middle/sema/class.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/cxy/lang/middle/sema/class.c b/src/cxy/lang/middle/sema/class.c
index 7497462..4f67f20 100644
--- a/src/cxy/lang/middle/sema/class.c
+++ b/src/cxy/lang/middle/sema/class.c
@@ -15,7 +15,8 @@
 static inline bool isInheritable(AstNode *member)
 {
     return nodeIs(member, FieldDecl) &&
-           !(hasFlag(member, Static) || hasFlag(member, VTable));
+           !(hasFlag(member, Static) || hasFlag(member, VTable) ||
+             hasFlag(member, Inherited));
 }
 
 static void inheritClassMembers(TypingContext *ctx,
-- 
2.43.0


From fafeb89a50c40cd64efd7d46926e7c746f8f9682 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:32:58 +0000
Subject: [PATCH 65/67] fix: removing from a hash table keeps the elements of
 chains that wrap around findable

---
 src/cxy/core/htable.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/cxy/core/htable.c b/src/cxy/core/htable.c
index 8aa1b66..b5e811f 100644
--- a/src/cxy/core/htable.c
+++ b/src/cxy/core/htable.c
@@ -181,8 +181,12 @@ void removeFromHashTable(HashTable *hashTable, void *elem, size_t elemSize)
     while (isBucketOccupied(hashTable, next_index)) {
         HashCode next_hash = hashTable->hashes[next_index];
         size_t desired_index = modPrime(next_hash, hashTable->capacity);
-        // If the next element is part of the collision chain, move it
-        if (desired_index <= index || desired_index > next_index) {
+        // If the next element is part of the collision chain, move it (its
+        // desired index is not between the free index, which may be past the
+        // end of the table, and its own)
+        if (index <= next_index
+                ? (desired_index <= index || desired_index > next_index)
+                : (desired_index <= index && desired_index > next_index)) {
             void *next_elem = elemAt(hashTable->elems, elemSize, next_index);
             memcpy(elem, next_elem, elemSize);
             hashTable->hashes[index] = next_hash;
-- 
2.43.0


From 0422c311246e5c3491500b8390012c7c7ef814a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:32:58 +0000
Subject: [PATCH 66/67] fix: a growing hash table has room for its hashes
 whatever the size of its elements

---
 src/cxy/core/htable.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cxy/core/htable.c b/src/cxy/core/htable.c
index b5e811f..3dbc44a 100644
--- a/src/cxy/core/htable.c
+++ b/src/cxy/core/htable.c
@@ -63,7 +63,7 @@ static inline void rehashTable(HashTable *hashTable, size_t elemSize)
     if (new_capacity <= hashTable->capacity)
         new_capacity = hashTable->capacity * 2 + 1;
     void *new_elems = mallocOrDie(new_capacity * elemSize);
-    HashCode *new_hashes = callocOrDie(new_capacity, elemSize);
+    HashCode *new_hashes = callocOrDie(new_capacity, sizeof(HashCode));
     for (size_t i = 0, n = hashTable->capacity; i < n; ++i) {
         HashCode hash = hashTable->hashes[i];
         if (!isOccupiedHash(hash))
-- 
2.43.0


From 0bd8fa6f8b668cec4d8d50abdaf8aa0a0fc90e08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:33:20 +0000
Subject: [PATCH 67/67] fix: the string pool tells strings with equal hashes
 apart

---
 src/cxy/core/strpool.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/cxy/core/strpool.c b/src/cxy/core/strpool.c
index 3daa438..b2c8626 100644
--- a/src/cxy/core/strpool.c
+++ b/src/cxy/core/strpool.c
@@ -25,14 +25,14 @@ typedef struct {
 
 static bool compareStrFind(const void *left, const void *right)
 {
-    SizedString *str = (SizedString *)right;
-    return !strncmp(*(char **)left, str->s, str->len);
+    const char *found = *(char **)left;
+    const SizedString *str = right;
+    return !strncmp(found, str->s, str->len) && found[str->len] == '\0';
 }
 
 static bool compareStrInsert(const void *left, const void *right)
 {
-    SizedString *str = (SizedString *)right;
-    return !strncmp(*(char **)left, str->s, str->len);
+    return !strcmp(*(char **)left, *(char **)right);
 }
 
 static cstring makeStringVargs(StrPool *strings, const char *fmt, va_list args)
-- 
2.43.0

