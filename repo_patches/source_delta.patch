From fed4cc630f0ffc9735e00843fcbbac513fc0bc2d Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:01 +0000
Subject: [PATCH 01/61] fix: Tiny_NewInt truncated integers to 32 bits

---
 tiny/include/tiny.h | 2 +-
 tiny/src/tiny.c     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/tiny/include/tiny.h b/tiny/include/tiny.h
index 9f535f6..8b56fb6 100644
--- a/tiny/include/tiny.h
+++ b/tiny/include/tiny.h
@@ -183,7 +183,7 @@ extern Tiny_Context Tiny_DefaultContext;
 void Tiny_ProtectFromGC(Tiny_Value value);
 
 Tiny_Value Tiny_NewBool(bool value);
-Tiny_Value Tiny_NewInt(int i);
+Tiny_Value Tiny_NewInt(Tiny_Int i);
 Tiny_Value Tiny_NewFloat(Tiny_Float f);
 Tiny_Value Tiny_NewConstString(const char *string);
 Tiny_Value Tiny_NewLightNative(void *ptr);
diff --git a/tiny/src/tiny.c b/tiny/src/tiny.c
index 43d90b8..f46a38a 100644
--- a/tiny/src/tiny.c
+++ b/tiny/src/tiny.c
@@ -353,7 +353,7 @@ Tiny_Value Tiny_NewBool(bool value) {
     return val;
 }
 
-Tiny_Value Tiny_NewInt(int i) {
+Tiny_Value Tiny_NewInt(Tiny_Int i) {
     Tiny_Value val;
 
     val.type = TINY_VAL_INT;
-- 
2.43.0


From e8bd3e6740ab7f5c92eaa420b340062bff6eebb5 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:22 +0000
Subject: [PATCH 02/61] fix: integer and float literals lost precision (32-bit
 int, single float)

---
 tiny/include/expr.h  | 4 ++--
 tiny/include/lexer.h | 4 ++--
 tiny/src/lexer.c     | 8 +++-----
 3 files changed, 7 insertions(+), 9 deletions(-)

diff --git a/tiny/include/expr.h b/tiny/include/expr.h
index 7292418..7bd4a8e 100644
--- a/tiny/include/expr.h
+++ b/tiny/include/expr.h
@@ -59,8 +59,8 @@ typedef struct Tiny_Expr {
     union {
         bool boolean;
 
-        int iValue;
-        float fValue;
+        Tiny_Int iValue;
+        Tiny_Float fValue;
         int sIndex;
 
         struct {
diff --git a/tiny/include/lexer.h b/tiny/include/lexer.h
index 2692028..ae10e84 100644
--- a/tiny/include/lexer.h
+++ b/tiny/include/lexer.h
@@ -22,8 +22,8 @@ typedef struct {
 
     union {
         bool bValue;
-        int iValue;
-        float fValue;
+        Tiny_Int iValue;
+        Tiny_Float fValue;
     };
 
     const char *errorMsg;
diff --git a/tiny/src/lexer.c b/tiny/src/lexer.c
index a6dd938..289b7fd 100644
--- a/tiny/src/lexer.c
+++ b/tiny/src/lexer.c
@@ -206,13 +206,11 @@ static Tiny_TokenKind GetToken(Tiny_Lexer *l) {
         sb_push(&l->ctx, l->lexeme, 0);
 
         if (isFloat) {
-            l->fValue = (float)strtod(l->lexeme, NULL);
+            l->fValue = (Tiny_Float)strtod(l->lexeme, NULL);
         } else if (isHex) {
-            int64_t value = strtoll(l->lexeme, NULL, 16);
-
-            l->iValue = (int)value;
+            l->iValue = (Tiny_Int)strtoull(l->lexeme, NULL, 16);
         } else {
-            l->iValue = strtol(l->lexeme, NULL, 10);
+            l->iValue = (Tiny_Int)strtoll(l->lexeme, NULL, 10);
         }
 
         return isFloat ? TINY_TOK_FLOAT : TINY_TOK_INT;
-- 
2.43.0


From e171ba9f3ea51e557e737d7447eb3165f3cbd006 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:24 +0000
Subject: [PATCH 03/61] fix: unterminated string literal made the lexer loop
 forever; count lines inside strings

---
 tiny/src/lexer.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/tiny/src/lexer.c b/tiny/src/lexer.c
index 289b7fd..cafb5fa 100644
--- a/tiny/src/lexer.c
+++ b/tiny/src/lexer.c
@@ -268,6 +268,13 @@ static Tiny_TokenKind GetToken(Tiny_Lexer *l) {
         l->last = GetChar(l);
 
         while (l->last != '"') {
+            if (l->last == 0) {
+                l->errorMsg = "Expected \" to close previous \".";
+                return TINY_TOK_LEXER_ERROR;
+            }
+
+            if (l->last == '\n') l->lineNumber++;
+
             CHECK_ESCAPE();
 
             sb_push(&l->ctx, l->lexeme, l->last);
-- 
2.43.0


From 00690a2a22fb929180873fee2ce90ca0bf05d7f1 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:42 +0000
Subject: [PATCH 04/61] fix: PUSH_STRING read a wider index than the compiler
 writes

---
 tiny/src/tiny.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tiny/src/tiny.c b/tiny/src/tiny.c
index f46a38a..e56facd 100644
--- a/tiny/src/tiny.c
+++ b/tiny/src/tiny.c
@@ -1217,7 +1217,7 @@ inline static bool ExecuteCycle(Tiny_StateThread *thread) {
 
         case TINY_OP_PUSH_STRING: {
             ++thread->pc;
-            Tiny_Int stringIndex = ReadInteger(thread);
+            Tiny_ConstantIndex stringIndex = ReadConstIndex(thread);
             DoPush(thread, Tiny_NewConstString(state->strings[stringIndex]));
         } break;
 
-- 
2.43.0


From 9b638ca0e9e8ac56baf41448eb1da8e457a7e062 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:43 +0000
Subject: [PATCH 05/61] fix: adding or subtracting a literal 1 corrupted float
 operands

---
 tiny/src/tiny.c | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/tiny/src/tiny.c b/tiny/src/tiny.c
index e56facd..7051a07 100644
--- a/tiny/src/tiny.c
+++ b/tiny/src/tiny.c
@@ -3199,6 +3199,13 @@ static void CompileCall(Tiny_State *state, Tiny_Expr *exp) {
     CompileCallSymbolWithArgsPrepared(state, (Word)nargs, sym, exp);
 }
 
+// Whether the binary expression adds/subtracts a literal 1 to/from an int. If the left hand side is
+// a float, then the fast integer ops cannot be used.
+static bool IsIntPlusOrMinusOne(const Tiny_Expr *exp) {
+    return exp->binary.lhs->tag->type == TINY_SYM_TAG_INT &&
+           exp->binary.rhs->type == TINY_EXP_INT && exp->binary.rhs->iValue == 1;
+}
+
 static void CompileExpr(Tiny_State *state, Tiny_Expr *exp) {
     switch (exp->type) {
         case TINY_EXP_NULL: {
@@ -3282,7 +3289,7 @@ static void CompileExpr(Tiny_State *state, Tiny_Expr *exp) {
                 case TINY_TOK_PLUS: {
                     CompileExpr(state, exp->binary.lhs);
 
-                    if (exp->binary.rhs->type == TINY_EXP_INT && exp->binary.rhs->iValue == 1) {
+                    if (IsIntPlusOrMinusOne(exp)) {
                         GenerateCode(state, TINY_OP_ADD1);
                     } else {
                         CompileExpr(state, exp->binary.rhs);
@@ -3293,7 +3300,7 @@ static void CompileExpr(Tiny_State *state, Tiny_Expr *exp) {
                 case TINY_TOK_MINUS: {
                     CompileExpr(state, exp->binary.lhs);
 
-                    if (exp->binary.rhs->type == TINY_EXP_INT && exp->binary.rhs->iValue == 1) {
+                    if (IsIntPlusOrMinusOne(exp)) {
                         GenerateCode(state, TINY_OP_SUB1);
                     } else {
                         CompileExpr(state, exp->binary.rhs);
@@ -3658,8 +3665,7 @@ static void CompileStatement(Tiny_State *state, Tiny_Expr *exp) {
                         case TINY_TOK_PLUSEQUAL: {
                             CompileGetLHS(state, exp->binary.lhs);
 
-                            if (exp->binary.rhs->type == TINY_EXP_INT &&
-                                exp->binary.rhs->iValue == 1) {
+                            if (IsIntPlusOrMinusOne(exp)) {
                                 GenerateCode(state, TINY_OP_ADD1);
                             } else {
                                 CompileExpr(state, exp->binary.rhs);
@@ -3670,8 +3676,7 @@ static void CompileStatement(Tiny_State *state, Tiny_Expr *exp) {
                         case TINY_TOK_MINUSEQUAL: {
                             CompileGetLHS(state, exp->binary.lhs);
 
-                            if (exp->binary.rhs->type == TINY_EXP_INT &&
-                                exp->binary.rhs->iValue == 1) {
+                            if (IsIntPlusOrMinusOne(exp)) {
                                 GenerateCode(state, TINY_OP_SUB1);
                             } else {
                                 CompileExpr(state, exp->binary.rhs);
-- 
2.43.0


From 42b117e5232f55aa61f196e5bddaf9130c58457a Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:03 +0000
Subject: [PATCH 06/61] fix: string equality ignored bytes after an embedded
 zero

---
 tiny/src/tiny.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tiny/src/tiny.c b/tiny/src/tiny.c
index 7051a07..ae0e9c9 100644
--- a/tiny/src/tiny.c
+++ b/tiny/src/tiny.c
@@ -241,7 +241,7 @@ bool Tiny_AreValuesEqual(Tiny_Value a, Tiny_Value b) {
             return false;
         }
 
-        return strncmp(a.obj->string.ptr, Tiny_ToString(b), aLen) == 0;
+        return memcmp(a.obj->string.ptr, Tiny_ToString(b), aLen) == 0;
     }
 
     if (a.type == TINY_VAL_CONST_STRING) {
@@ -256,7 +256,7 @@ bool Tiny_AreValuesEqual(Tiny_Value a, Tiny_Value b) {
             return false;
         }
 
-        return strncmp(a.cstr, Tiny_ToString(b), aLen) == 0;
+        return memcmp(Tiny_ToString(a), Tiny_ToString(b), aLen) == 0;
     }
 
     return false;
-- 
2.43.0


From 05c97847ace7620f486f2fd4b81a5adf1e5a1d17 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:04 +0000
Subject: [PATCH 07/61] fix: garbage collector recursed without bound on cyclic
 or deeply linked objects

---
 tiny/include/detail.h |  3 +++
 tiny/src/tiny.c       | 35 +++++++++++++++++++++++++++++------
 2 files changed, 32 insertions(+), 6 deletions(-)

diff --git a/tiny/include/detail.h b/tiny/include/detail.h
index e41b513..d4a7ac3 100644
--- a/tiny/include/detail.h
+++ b/tiny/include/detail.h
@@ -16,6 +16,9 @@ typedef struct Tiny_Object {
     Tiny_ValueType type;
     struct Tiny_Object *next;
 
+    // Used while marking, see Tiny_ProtectFromGC
+    struct Tiny_Object *nextPending;
+
     union {
         struct {
             size_t len;
diff --git a/tiny/src/tiny.c b/tiny/src/tiny.c
index ae0e9c9..9d07aef 100644
--- a/tiny/src/tiny.c
+++ b/tiny/src/tiny.c
@@ -122,6 +122,12 @@ static inline bool IsObject(Tiny_Value val) {
            val.type == TINY_VAL_STRUCT;
 }
 
+// Objects which are marked but whose children haven't been visited yet, linked by `nextPending`.
+static _Thread_local Tiny_Object *PendingHead = NULL;
+static _Thread_local bool VisitingPending = false;
+
+// This marks objects before visiting their children and keeps the ones yet to be visited in a list
+// rather than recursing so that reference cycles and long chains of objects are handled.
 void Tiny_ProtectFromGC(Tiny_Value value) {
     if (!IsObject(value)) return;
 
@@ -131,14 +137,31 @@ void Tiny_ProtectFromGC(Tiny_Value value) {
 
     if (obj->marked) return;
 
-    if (obj->type == TINY_VAL_NATIVE) {
-        if (obj->nat.prop && obj->nat.prop->protectFromGC)
-            obj->nat.prop->protectFromGC(obj->nat.addr);
-    } else if (obj->type == TINY_VAL_STRUCT) {
-        for (int i = 0; i < obj->ostruct.n; ++i) Tiny_ProtectFromGC(obj->ostruct.fields[i]);
+    obj->marked = 1;
+
+    if (obj->type == TINY_VAL_STRING) return;
+
+    obj->nextPending = PendingHead;
+    PendingHead = obj;
+
+    // The outermost call visits all the children
+    if (VisitingPending) return;
+
+    VisitingPending = true;
+
+    while (PendingHead) {
+        obj = PendingHead;
+        PendingHead = obj->nextPending;
+
+        if (obj->type == TINY_VAL_NATIVE) {
+            if (obj->nat.prop && obj->nat.prop->protectFromGC)
+                obj->nat.prop->protectFromGC(obj->nat.addr);
+        } else if (obj->type == TINY_VAL_STRUCT) {
+            for (int i = 0; i < obj->ostruct.n; ++i) Tiny_ProtectFromGC(obj->ostruct.fields[i]);
+        }
     }
 
-    obj->marked = 1;
+    VisitingPending = false;
 }
 
 static void MarkAll(Tiny_StateThread *thread);
-- 
2.43.0


From 5ae287c2bdc1440b28eea7e2a0c9751056412ae1 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:28 +0000
Subject: [PATCH 08/61] fix: pending return value was not protected from GC
 during Tiny_CallFunction

---
 tiny/src/tiny.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tiny/src/tiny.c b/tiny/src/tiny.c
index 9d07aef..7053367 100644
--- a/tiny/src/tiny.c
+++ b/tiny/src/tiny.c
@@ -618,6 +618,9 @@ Tiny_Value Tiny_CallFunction(Tiny_StateThread *thread, int functionIndex, const
 
     AllocGlobals(thread);
 
+    // Keep the previous return value on the stack so that it's protected from GC during the call
+    DoPush(thread, retVal);
+
     for (int i = 0; i < count; ++i) {
         DoPush(thread, args[i]);
     }
-- 
2.43.0


From 222e6405033c65bdc73b7d5ddd539f99cd459dae Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:30 +0000
Subject: [PATCH 09/61] fix: too many strings in a program crashed the compiler
 instead of reporting an error

---
 tiny/src/tiny.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tiny/src/tiny.c b/tiny/src/tiny.c
index 7053367..4231301 100644
--- a/tiny/src/tiny.c
+++ b/tiny/src/tiny.c
@@ -720,6 +720,10 @@ static int RegisterString(Tiny_State *state, const char *string) {
         if (strcmp(state->strings[i], string) == 0) return i;
     }
 
+    if (state->numStrings >= MAX_STRINGS && state->compileCallNestCount > 0) {
+        ReportErrorSL(state, "Exceeded maximum number of unique strings (%d).", MAX_STRINGS);
+    }
+
     assert(state->numStrings < MAX_STRINGS);
     state->strings[state->numStrings++] = CloneString(&state->ctx, string);
 
-- 
2.43.0


From 85df623c41b4b61b1567423a1a7a93f806b637df Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:31 +0000
Subject: [PATCH 10/61] fix: overflowing a thread's stack silently wrote out of
 bounds

---
 tiny/src/tiny.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tiny/src/tiny.c b/tiny/src/tiny.c
index 4231301..3b0c3a0 100644
--- a/tiny/src/tiny.c
+++ b/tiny/src/tiny.c
@@ -1161,6 +1161,8 @@ static Tiny_Float ReadFloat(Tiny_StateThread *thread) {
 }
 
 static void DoPush(Tiny_StateThread *thread, Tiny_Value value) {
+    assert(thread->sp < TINY_THREAD_STACK_SIZE);
+
     thread->stack[thread->sp++] = value;
 }
 
@@ -1206,6 +1208,8 @@ inline static bool ExecuteCycle(Tiny_StateThread *thread) {
         case TINY_OP_PUSH_NULL_N: {
             ++thread->pc;
             Word n = state->program[thread->pc++];
+
+            assert(thread->sp + n <= TINY_THREAD_STACK_SIZE);
             memset(&thread->stack[thread->sp], 0, sizeof(Tiny_Value) * n);
             thread->sp += n;
         } break;
-- 
2.43.0


From a9c6f542d88dc55ccfcd0bc1d66cdc23f105016d Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:33 +0000
Subject: [PATCH 11/61] fix: error messages formatted a node pointer as a
 string

---
 tiny/src/tiny.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/tiny/src/tiny.c b/tiny/src/tiny.c
index 3b0c3a0..1a5f273 100644
--- a/tiny/src/tiny.c
+++ b/tiny/src/tiny.c
@@ -2591,7 +2591,7 @@ static void ResolveTypes(Tiny_State *state, Tiny_Expr *exp) {
 
                 if (i >= argc && !isVarargs) {
                     ReportErrorE(state, node, "Too many arguments to function '%s' (%d expected).",
-                                 exp->call.calleeName, argc);
+                                 exp->call.calleeName->value, argc);
                 }
 
                 if (func->type == TINY_SYM_FOREIGN_FUNCTION) {
@@ -3142,7 +3142,7 @@ static void CompileCallSymbolWithArgsPrepared(Tiny_State *state, Word nargs, con
 static void CompileGetLHS(Tiny_State *state, Tiny_Expr *exp) {
     if (exp->type == TINY_EXP_ID) {
         if (!exp->id.sym)
-            ReportErrorE(state, exp, "Referencing undeclared identifier '%s'.\n", exp->id.name);
+            ReportErrorE(state, exp, "Referencing undeclared identifier '%s'.\n", exp->id.name->value);
 
         assert(exp->id.sym->type == TINY_SYM_GLOBAL || exp->id.sym->type == TINY_SYM_LOCAL ||
                exp->id.sym->type == TINY_SYM_CONST);
@@ -3220,14 +3220,14 @@ static void CompileCall(Tiny_State *state, Tiny_Expr *exp) {
     Tiny_Symbol *sym = ReferenceFunction(state, exp->call.calleeName->value);
     if (!sym) {
         ReportErrorE(state, exp, "Attempted to call undefined function '%s'.\n",
-                     exp->call.calleeName);
+                     exp->call.calleeName->value);
     }
 
     if (nargs > UCHAR_MAX) {
         ReportErrorE(state, exp,
                      "Attempted to call function '%s' with %d args. Tiny supports calling "
                      "functions with %d args at most.",
-                     exp->call.calleeName, nargs, UCHAR_MAX);
+                     exp->call.calleeName->value, nargs, UCHAR_MAX);
     }
 
     CompileCallSymbolWithArgsPrepared(state, (Word)nargs, sym, exp);
@@ -3757,7 +3757,7 @@ static void CompileStatement(Tiny_State *state, Tiny_Expr *exp) {
                         if (!exp->binary.lhs->id.sym) {
                             // The variable being referenced doesn't exist
                             ReportErrorE(state, exp, "Assigning to undeclared identifier '%s'.\n",
-                                         exp->binary.lhs->id.name);
+                                         exp->binary.lhs->id.name->value);
                         }
 
                         if (exp->binary.lhs->id.sym->type == TINY_SYM_GLOBAL) {
@@ -3769,7 +3769,7 @@ static void CompileStatement(Tiny_State *state, Tiny_Expr *exp) {
                         } else  // Probably a constant, can't change it
                         {
                             ReportErrorE(state, exp, "Cannot assign to id '%s'.\n",
-                                         exp->binary.lhs->id.name);
+                                         exp->binary.lhs->id.name->value);
                         }
 
                         exp->binary.lhs->id.sym->var.initialized = true;
-- 
2.43.0


From be9d968bbe3173d73e4de04a9b7a2c6acfb735ad Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:34 +0000
Subject: [PATCH 12/61] fix: nullable values could not be assigned to variables
 of the same nullable type

---
 tiny/src/tiny.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tiny/src/tiny.c b/tiny/src/tiny.c
index 1a5f273..be47425 100644
--- a/tiny/src/tiny.c
+++ b/tiny/src/tiny.c
@@ -2512,7 +2512,7 @@ static bool IsTagAssignableTo(const Tiny_Symbol *src, const Tiny_Symbol *dest) {
         return dest->type == TINY_SYM_TAG_ANY;
     }
 
-    if (dest->type == TINY_SYM_TAG_NULLABLE) {
+    if (dest->type == TINY_SYM_TAG_NULLABLE && src->type != TINY_SYM_TAG_NULLABLE) {
         return IsTagAssignableTo(src, dest->nullableTag);
     }
 
-- 
2.43.0


From b1393938dc38ab4948f12e1cc70342b21f168b14 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:35 +0000
Subject: [PATCH 13/61] fix: compound assignment accepted operands its operator
 is not defined for

---
 tiny/src/tiny.c | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/tiny/src/tiny.c b/tiny/src/tiny.c
index be47425..2aa64c4 100644
--- a/tiny/src/tiny.c
+++ b/tiny/src/tiny.c
@@ -2756,6 +2756,20 @@ static void ResolveTypes(Tiny_State *state, Tiny_Expr *exp) {
                     ResolveTypes(state, exp->binary.lhs);
                     ResolveTypes(state, exp->binary.rhs);
 
+                    bool intOnly = exp->binary.op == TINY_TOK_PERCENTEQUAL ||
+                                   exp->binary.op == TINY_TOK_OREQUAL ||
+                                   exp->binary.op == TINY_TOK_ANDEQUAL;
+
+                    if (exp->binary.op != TINY_TOK_EQUAL &&
+                        exp->binary.lhs->tag->type != TINY_SYM_TAG_INT &&
+                        (intOnly || exp->binary.lhs->tag->type != TINY_SYM_TAG_FLOAT)) {
+                        ReportErrorE(state, exp,
+                                     "Left hand side of compound assignment must be %s, but it's "
+                                     "a '%s'.",
+                                     intOnly ? "an int" : "an int or float",
+                                     GetTagName(exp->binary.lhs->tag));
+                    }
+
                     if (!IsTagAssignableTo(exp->binary.rhs->tag, exp->binary.lhs->tag)) {
                         ReportErrorE(
                             state, exp, "Attempted to assign a '%s' to a '%s'. Can't do that.",
-- 
2.43.0


From 188b6f5688bd698bafac41eb4b74aff8f05176fa Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:36 +0000
Subject: [PATCH 14/61] fix: calls with too few arguments to Tiny functions
 were accepted

---
 tiny/src/tiny.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/tiny/src/tiny.c b/tiny/src/tiny.c
index 2aa64c4..690a934 100644
--- a/tiny/src/tiny.c
+++ b/tiny/src/tiny.c
@@ -3147,6 +3147,13 @@ static void CompileCallSymbolWithArgsPrepared(Tiny_State *state, Word nargs, con
         GenerateCode(state, (Word)nargs);
         GEN_VALUE_NOPOS(state, &fn->foreignFunc.index);
     } else {
+        int fNargs = sb_count(fn->func.args);
+
+        if (fNargs != nargs) {
+            ReportErrorE(state, errorExp, "Function '%s' expects %d args but you supplied %d.\n",
+                         fn->name, fNargs, nargs);
+        }
+
         GenerateCode(state, TINY_OP_CALL);
         GenerateCode(state, (Word)nargs);
         GEN_VALUE_NOPOS(state, &fn->func.index);
-- 
2.43.0


From 3b5f04b9c6b7ae396cbba7c1dc3be899a16e3eef Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:37 +0000
Subject: [PATCH 15/61] fix: struct constructors with missing or repeated
 fields were accepted

---
 tiny/src/tiny.c | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/tiny/src/tiny.c b/tiny/src/tiny.c
index 690a934..7b4b4ce 100644
--- a/tiny/src/tiny.c
+++ b/tiny/src/tiny.c
@@ -2955,6 +2955,16 @@ static void ResolveTypes(Tiny_State *state, Tiny_Expr *exp) {
                             continue;
                         }
 
+                        for (Tiny_StringNode *prev = exp->constructor.argNamesHead;
+                             prev != nameNode; prev = prev->next) {
+                            if (strcmp(prev->value, nameNode->value) == 0) {
+                                ReportErrorE(state, argNode,
+                                             "Field %s of struct %s is initialized more than once.",
+                                             nameNode->value,
+                                             GetTagName(exp->constructor.structTag));
+                            }
+                        }
+
                         if (!IsTagAssignableTo(argNode->tag, expectedField->fieldTag)) {
                             ReportErrorE(state, argNode,
                                          "Designated initializer .%s to constructor is supposed to "
@@ -2994,6 +3004,11 @@ static void ResolveTypes(Tiny_State *state, Tiny_Expr *exp) {
                 }
             }
 
+            if (i < tagCount) {
+                ReportErrorE(state, exp, "struct %s constructor expects %d args but you supplied %d.",
+                             GetTagName(exp->constructor.structTag), tagCount, i);
+            }
+
             exp->tag = exp->constructor.structTag;
         } break;
 
-- 
2.43.0


From bc2f61c8834a88776992529316932f115f2765ec Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:38 +0000
Subject: [PATCH 16/61] fix: a variable referring to itself in its declaration
 used an uninitialized type

---
 tiny/src/tiny.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/tiny/src/tiny.c b/tiny/src/tiny.c
index 7b4b4ce..3774b34 100644
--- a/tiny/src/tiny.c
+++ b/tiny/src/tiny.c
@@ -864,6 +864,7 @@ static Tiny_Symbol *DeclareGlobalVar(Tiny_State *state, const char *name) {
     newNode->var.initialized = false;
     newNode->var.index = state->numGlobalVars;
     newNode->var.scope = 0;  // Global variable scope don't matter
+    newNode->var.tag = NULL;
     newNode->var.scopeEnded = false;
 
     sb_push(&state->ctx, state->globalSymbols, newNode);
@@ -927,6 +928,7 @@ static Tiny_Symbol *DeclareLocal(Tiny_State *state, const char *name) {
 
     newNode->var.initialized = false;
     newNode->var.scopeEnded = false;
+    newNode->var.tag = NULL;
     newNode->var.index = sb_count(state->currFunc->func.locals);
     newNode->var.scope = state->currScope;
 
@@ -2562,7 +2564,10 @@ static void ResolveTypes(Tiny_State *state, Tiny_Expr *exp) {
                    exp->id.sym->type == TINY_SYM_CONST);
 
             if (exp->id.sym->type != TINY_SYM_CONST) {
-                assert(exp->id.sym->var.tag);
+                if (!exp->id.sym->var.tag) {
+                    ReportErrorE(state, exp, "Using variable '%s' before it is initialized.\n",
+                                 exp->id.name->value);
+                }
 
                 exp->tag = exp->id.sym->var.tag;
             } else {
-- 
2.43.0


From b6d4bd94559707b345465dc6c6b88871b2f29832 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:00 +0000
Subject: [PATCH 17/61] fix: break and continue outside of a loop were accepted
 and jumped to the program start

---
 tiny/src/tiny.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/tiny/src/tiny.c b/tiny/src/tiny.c
index 3774b34..2a2744b 100644
--- a/tiny/src/tiny.c
+++ b/tiny/src/tiny.c
@@ -2313,9 +2313,10 @@ static Tiny_Expr *ParseStatement(Tiny_State *state) {
 
         // TODO(Apaar): Labeled break/continue
         case TINY_TOK_BREAK: {
-            GetNextToken(state);
             Tiny_Expr *exp = Expr_create(TINY_EXP_BREAK, state);
 
+            GetNextToken(state);
+
             // Set to -1 to make sure we don't get into trouble
             exp->breakContinue.patchLoc = -1;
 
@@ -3868,6 +3869,8 @@ static void CompileStatement(Tiny_State *state, Tiny_Expr *exp) {
 
             if (exp->proc.body) {
                 CompileStatement(state, exp->proc.body);
+                // Any break/continue which isn't inside a loop at this point is an error
+                PatchBreakContinue(state, exp->proc.body, -1, -1);
             }
 
             GenerateCode(state, TINY_OP_RETURN);
@@ -3929,6 +3932,8 @@ static void CompileStatement(Tiny_State *state, Tiny_Expr *exp) {
             PatchJumpLoc(state, skipBodyLoc, sb_count(state->program));
 
             PatchBreakContinue(state, exp->forx.body, sb_count(state->program), stepPc);
+            PatchBreakContinue(state, exp->forx.init, -1, -1);
+            PatchBreakContinue(state, exp->forx.step, -1, -1);
         } break;
 
         case TINY_EXP_RETURN: {
@@ -3960,6 +3965,8 @@ static void CompileStatement(Tiny_State *state, Tiny_Expr *exp) {
 static void CompileProgram(Tiny_State *state, Tiny_Expr *progHead) {
     for (Tiny_Expr *exp = progHead; exp; exp = exp->next) {
         CompileStatement(state, exp);
+        // Any break/continue which isn't inside a loop at this point is an error
+        PatchBreakContinue(state, exp, -1, -1);
     }
 }
 
-- 
2.43.0


From 5d0bcf3be7d442545819d61ab642f84621aa2ec8 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:24 +0000
Subject: [PATCH 18/61] fix: the position of a compile error was never reported

---
 tiny/src/tiny.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tiny/src/tiny.c b/tiny/src/tiny.c
index 2a2744b..806a4eb 100644
--- a/tiny/src/tiny.c
+++ b/tiny/src/tiny.c
@@ -45,6 +45,7 @@ static void ReportErrorL(Tiny_State *state, Tiny_Lexer *l, const char *s, ...) {
     va_start(args, s);
 
     state->compileErrorResult.type = TINY_COMPILE_ERROR;
+    state->compileErrorResult.error.pos = l->pos;
 
     Tiny_FormatErrorV(state->compileErrorResult.error.msg,
                       sizeof(state->compileErrorResult.error.msg), l->fileName, l->src, l->pos, s,
@@ -60,6 +61,7 @@ static void ReportErrorSL(Tiny_State *state, const char *s, ...) {
     va_start(args, s);
 
     state->compileErrorResult.type = TINY_COMPILE_ERROR;
+    state->compileErrorResult.error.pos = state->l.pos;
 
     Tiny_FormatErrorV(state->compileErrorResult.error.msg,
                       sizeof(state->compileErrorResult.error.msg), state->l.fileName, state->l.src,
@@ -1504,6 +1506,7 @@ static void ReportErrorE(Tiny_State *state, const Tiny_Expr *exp, const char *s,
     va_start(args, s);
 
     state->compileErrorResult.type = TINY_COMPILE_ERROR;
+    state->compileErrorResult.error.pos = exp->pos;
 
     Tiny_FormatErrorV(state->compileErrorResult.error.msg,
                       sizeof(state->compileErrorResult.error.msg), state->l.fileName, state->l.src,
@@ -1519,6 +1522,7 @@ static void ReportErrorS(Tiny_State *state, const Tiny_Symbol *sym, const char *
     va_start(args, s);
 
     state->compileErrorResult.type = TINY_COMPILE_ERROR;
+    state->compileErrorResult.error.pos = sym->pos;
 
     Tiny_FormatErrorV(state->compileErrorResult.error.msg,
                       sizeof(state->compileErrorResult.error.msg), state->l.fileName, state->l.src,
-- 
2.43.0


From dda49ca4e9c216c38cdd64a23b748ecd6b9fb375 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:25 +0000
Subject: [PATCH 19/61] fix: syntax errors in parameter and field lists leaked
 memory

---
 tiny/src/tiny.c | 38 +++++++++++++++++++++++---------------
 1 file changed, 23 insertions(+), 15 deletions(-)

diff --git a/tiny/src/tiny.c b/tiny/src/tiny.c
index 806a4eb..ba23ee3 100644
--- a/tiny/src/tiny.c
+++ b/tiny/src/tiny.c
@@ -1736,30 +1736,38 @@ static Tiny_Expr *ParseFunc(Tiny_State *state) {
 
     GetNextToken(state);
 
-    typedef struct {
-        char *name;
+    // These are allocated in the parser arena so they're not leaked if there's an error
+    typedef struct Arg {
+        const char *name;
         Tiny_Symbol *tag;
+
+        struct Arg *next;
     } Arg;
 
-    Arg *args = NULL;  // array
+    Arg *argsHead = NULL;
+    Arg *argsTail = NULL;
+    int nargs = 0;
 
     while (state->l.lastTok != TINY_TOK_CLOSEPAREN) {
         ExpectTokenSL(state, TINY_TOK_IDENT, "Expected identifier in function parameter list");
 
-        Arg arg;
+        Arg *arg = Tiny_ArenaAlloc(&state->parserArena, sizeof(Arg), sizeof(void *));
+
+        arg->name = CreateExprStringNode(state, state->l.lexeme)->value;
+        arg->next = NULL;
 
-        arg.name = CloneString(&state->ctx, state->l.lexeme);
         GetNextToken(state);
 
         if (state->l.lastTok != TINY_TOK_COLON) {
-            ReportErrorSL(state, "Expected ':' after %s", arg.name);
+            ReportErrorSL(state, "Expected ':' after %s", arg->name);
         }
 
         GetNextToken(state);
 
-        arg.tag = ParseTypeSL(state);
+        arg->tag = ParseTypeSL(state);
 
-        sb_push(&state->ctx, args, arg);
+        TINY_LL_APPEND(argsHead, argsTail, arg);
+        ++nargs;
 
         if (state->l.lastTok != TINY_TOK_CLOSEPAREN && state->l.lastTok != TINY_TOK_COMMA) {
             ReportErrorSL(state,
@@ -1770,13 +1778,10 @@ static Tiny_Expr *ParseFunc(Tiny_State *state) {
         if (state->l.lastTok == TINY_TOK_COMMA) GetNextToken(state);
     }
 
-    for (int i = 0; i < sb_count(args); ++i) {
-        DeclareArgument(state, args[i].name, args[i].tag, sb_count(args));
-        TFree(&state->ctx, args[i].name);
+    for (Arg *arg = argsHead; arg; arg = arg->next) {
+        DeclareArgument(state, arg->name, arg->tag, nargs);
     }
 
-    sb_free(&state->ctx, args);
-
     GetNextToken(state);
 
     if (state->l.lastTok != TINY_TOK_COLON) {
@@ -1838,13 +1843,16 @@ static Tiny_Symbol *ParseStruct(Tiny_State *state) {
 
         Tiny_Symbol *f = Symbol_create(TINY_SYM_FIELD, state->l.lexeme, state);
 
+        f->fieldTag = NULL;
+
+        // Push this right away so it's not leaked if there's an error below
+        sb_push(&state->ctx, s->sstruct.fields, f);
+
         GetExpectTokenSL(state, TINY_TOK_COLON, "Expected ':' after field name.");
 
         GetNextToken(state);
 
         f->fieldTag = ParseTypeSL(state);
-
-        sb_push(&state->ctx, s->sstruct.fields, f);
     }
 
     GetNextToken(state);
-- 
2.43.0


From 7c04170f73834c41fa4f67f0be31a96131af63d4 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:18 +0000
Subject: [PATCH 20/61] fix: a failed compile left the state modified (current
 function, final halt, line table, strings, structs)

---
 tiny/src/tiny.c | 67 +++++++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 67 insertions(+)

diff --git a/tiny/src/tiny.c b/tiny/src/tiny.c
index ba23ee3..d7b0cf8 100644
--- a/tiny/src/tiny.c
+++ b/tiny/src/tiny.c
@@ -4072,6 +4072,34 @@ Tiny_CompileResult Tiny_CompileString(Tiny_State *state, const char *name, const
     int firstSymIndex = sb_count(state->globalSymbols);
     int startCodeLen = sb_count(state->program);
 
+    // If there's an error, all of these are restored so that it's as if this was never called
+    Tiny_Symbol *startFunc = state->currFunc;
+    int startScope = state->currScope;
+    int startNumStrings = state->numStrings;
+    int startNumGlobalVars = state->numGlobalVars;
+    int startNumFunctions = state->numFunctions;
+    int startNumForeignFunctions = state->numForeignFunctions;
+    int startNumPCToFileLine = sb_count(state->pcToFileLine);
+
+    // Compiling can overwrite the last instruction and update the last record
+    Word startLastInst = startCodeLen > 0 ? state->program[startCodeLen - 1] : 0;
+    Tiny_PCToFileLine startLastPCToFileLine = {0};
+
+    if (startNumPCToFileLine > 0) {
+        startLastPCToFileLine = state->pcToFileLine[startNumPCToFileLine - 1];
+    }
+
+    // Structs which were referenced (by e.g. a bound function) but not defined yet
+    Tiny_Symbol **undefinedStructs = NULL;  // array
+
+    for (int i = 0; i < firstSymIndex; ++i) {
+        Tiny_Symbol *s = state->globalSymbols[i];
+
+        if (s->type == TINY_SYM_TAG_STRUCT && !s->sstruct.defined) {
+            sb_push(&state->ctx, undefinedStructs, s);
+        }
+    }
+
     // We have to do this _before_ setjmp because it'll get
     // incremented again if it jumps back and we put it after
     state->compileCallNestCount += 1;
@@ -4088,6 +4116,31 @@ Tiny_CompileResult Tiny_CompileString(Tiny_State *state, const char *name, const
             stb__sbn(state->globalSymbols) = firstSymIndex;
         }
 
+        for (int i = 0; i < sb_count(undefinedStructs); ++i) {
+            Tiny_Symbol *s = undefinedStructs[i];
+
+            for (int j = 0; j < sb_count(s->sstruct.fields); ++j) {
+                Symbol_destroy(s->sstruct.fields[j], &state->ctx);
+            }
+
+            sb_free(&state->ctx, s->sstruct.fields);
+
+            s->sstruct.fields = NULL;
+            s->sstruct.defined = false;
+        }
+
+        sb_free(&state->ctx, undefinedStructs);
+
+        while (state->numStrings > startNumStrings) {
+            TFree(&state->ctx, state->strings[--state->numStrings]);
+        }
+
+        state->currFunc = startFunc;
+        state->currScope = startScope;
+        state->numGlobalVars = startNumGlobalVars;
+        state->numFunctions = startNumFunctions;
+        state->numForeignFunctions = startNumForeignFunctions;
+
         // TOOD(Apaar): Can we just goto below?
         Tiny_DestroyLexer(&state->l);
         Tiny_DestroyArena(&state->parserArena);
@@ -4095,6 +4148,18 @@ Tiny_CompileResult Tiny_CompileString(Tiny_State *state, const char *name, const
         if (state->program) {
             // TODO(Apaar): Should we realloc and shrink?
             stb__sbn(state->program) = startCodeLen;
+
+            if (startCodeLen > 0) {
+                state->program[startCodeLen - 1] = startLastInst;
+            }
+        }
+
+        if (state->pcToFileLine) {
+            stb__sbn(state->pcToFileLine) = startNumPCToFileLine;
+
+            if (startNumPCToFileLine > 0) {
+                state->pcToFileLine[startNumPCToFileLine - 1] = startLastPCToFileLine;
+            }
         }
 
         state->l = prevLexer;
@@ -4167,6 +4232,8 @@ Tiny_CompileResult Tiny_CompileString(Tiny_State *state, const char *name, const
                      lastSymIndex);  // Done after compilation because it might have registered
                                      // undefined functions during the compilation stage
 
+    sb_free(&state->ctx, undefinedStructs);
+
     Tiny_DestroyLexer(&state->l);
 
     // Deletes all the parser data in one go, no deletion chores required
-- 
2.43.0


From 4d94845d121a07849b3448eb4ebb9c3686ad2df9 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:19 +0000
Subject: [PATCH 21/61] fix: macro argument limit was off by one and overflowed
 the argument array

---
 tiny/src/tiny.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/tiny/src/tiny.c b/tiny/src/tiny.c
index d7b0cf8..c5f4b04 100644
--- a/tiny/src/tiny.c
+++ b/tiny/src/tiny.c
@@ -4190,9 +4190,10 @@ Tiny_CompileResult Tiny_CompileString(Tiny_State *state, const char *name, const
                 char **argp = args;
 
                 for (Tiny_StringNode *node = exp->use.argsHead; node; node = node->next) {
-                    if (argp - args > sizeof(args) / sizeof(args[0])) {
+                    if (argp - args >= sizeof(args) / sizeof(args[0])) {
                         ReportErrorE(state, exp, "Macro %s takes too many args (limit is %d)",
-                                     exp->use.moduleName->value, sizeof(args) / sizeof(args[0]));
+                                     exp->use.moduleName->value,
+                                     (int)(sizeof(args) / sizeof(args[0])));
                     }
 
                     *argp++ = node->value;
-- 
2.43.0


From 1f601afb85b7773a2a6307a44722f9e2cacee492 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:20 +0000
Subject: [PATCH 22/61] fix: using a struct which was only mentioned in a bound
 signature crashed the compiler

---
 tiny/src/tiny.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/tiny/src/tiny.c b/tiny/src/tiny.c
index c5f4b04..36960b3 100644
--- a/tiny/src/tiny.c
+++ b/tiny/src/tiny.c
@@ -2929,6 +2929,11 @@ static void ResolveTypes(Tiny_State *state, Tiny_Expr *exp) {
                 ReportErrorE(state, exp, "Cannot use '.' on a %s", GetTagName(exp->dot.lhs->tag));
             }
 
+            if (!exp->dot.lhs->tag->sstruct.defined) {
+                ReportErrorE(state, exp, "Referenced undefined struct %s.",
+                             GetTagName(exp->dot.lhs->tag));
+            }
+
             exp->tag = GetFieldTag(exp->dot.lhs->tag, exp->dot.field->value, NULL);
 
             if (!exp->tag) {
@@ -2938,7 +2943,10 @@ static void ResolveTypes(Tiny_State *state, Tiny_Expr *exp) {
         } break;
 
         case TINY_EXP_CONSTRUCTOR: {
-            assert(exp->constructor.structTag->sstruct.defined);
+            if (!exp->constructor.structTag->sstruct.defined) {
+                ReportErrorE(state, exp, "Referenced undefined struct %s.",
+                             GetTagName(exp->constructor.structTag));
+            }
 
             int tagCount = sb_count(exp->constructor.structTag->sstruct.fields);
 
-- 
2.43.0


From 65d7f8716ed9b2d84723cd8f88bf5f1779af9878 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:21 +0000
Subject: [PATCH 23/61] fix: the index operator did not check the types of the
 values passed to its functions

---
 tiny/src/tiny.c | 39 +++++++++++++++++++++++++++++++++++++--
 1 file changed, 37 insertions(+), 2 deletions(-)

diff --git a/tiny/src/tiny.c b/tiny/src/tiny.c
index 36960b3..1a12177 100644
--- a/tiny/src/tiny.c
+++ b/tiny/src/tiny.c
@@ -2538,6 +2538,32 @@ static bool IsTagAssignableTo(const Tiny_Symbol *src, const Tiny_Symbol *dest) {
     return false;
 }
 
+// The functions used to implement the index operator are found by name and called implicitly, so
+// this ensures that the values they're called with are what they expect.
+static void CheckIndexFuncArgs(Tiny_State *state, const Tiny_Expr *exp, const Tiny_Symbol *func,
+                               const Tiny_Symbol *const *tags, int nargs) {
+    bool isForeign = func->type == TINY_SYM_FOREIGN_FUNCTION;
+    bool isVarargs = isForeign && func->foreignFunc.varargs;
+
+    int argc = isForeign ? sb_count(func->foreignFunc.argTags) : sb_count(func->func.args);
+
+    if (argc > nargs || (argc < nargs && !isVarargs)) {
+        ReportErrorE(state, exp, "Function '%s' must take %d args to be used by [].", func->name,
+                     nargs);
+    }
+
+    for (int i = 0; i < argc; ++i) {
+        const Tiny_Symbol *expected =
+            isForeign ? func->foreignFunc.argTags[i] : func->func.args[i]->var.tag;
+
+        if (!IsTagAssignableTo(tags[i], expected)) {
+            ReportErrorE(state, exp,
+                         "Argument %i to '%s' is supposed to be a '%s' but you supplied a '%s'\n",
+                         i + 1, func->name, GetTagName(expected), GetTagName(tags[i]));
+        }
+    }
+}
+
 static void ResolveTypes(Tiny_State *state, Tiny_Expr *exp) {
     if (exp->tag) return;
 
@@ -2794,6 +2820,15 @@ static void ResolveTypes(Tiny_State *state, Tiny_Expr *exp) {
                             GetTagName(exp->binary.rhs->tag), GetTagName(exp->binary.lhs->tag));
                     }
 
+                    if (exp->binary.lhs->type == TINY_EXP_INDEX &&
+                        exp->binary.lhs->index.setIndexFunc) {
+                        const Tiny_Symbol *tags[] = {exp->binary.lhs->index.arr->tag,
+                                                     exp->binary.lhs->index.elem->tag,
+                                                     exp->binary.rhs->tag};
+                        CheckIndexFuncArgs(state, exp, exp->binary.lhs->index.setIndexFunc, tags,
+                                           3);
+                    }
+
                     exp->tag = GetPrimTag(TINY_SYM_TAG_VOID);
                 } break;
 
@@ -3106,8 +3141,8 @@ static void ResolveTypes(Tiny_State *state, Tiny_Expr *exp) {
                                                   ? getIndexFunc->foreignFunc.returnTag
                                                   : getIndexFunc->func.returnTag;
 
-            // TODO(Apaar): Check that the argument count of getIndexFunc is 2 and also that it
-            // receives the correct argument types.
+            const Tiny_Symbol *tags[] = {exp->index.arr->tag, exp->index.elem->tag};
+            CheckIndexFuncArgs(state, exp, getIndexFunc, tags, 2);
 
             exp->tag = getIndexReturnType;
 
-- 
2.43.0


From eab17c7dfdeab941581b29643b1d7ca8aa39a1d3 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:57 +0000
Subject: [PATCH 24/61] fix: the disassembler did not know the shift
 instructions

---
 tiny/src/tiny.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tiny/src/tiny.c b/tiny/src/tiny.c
index 1a12177..ae1af8c 100644
--- a/tiny/src/tiny.c
+++ b/tiny/src/tiny.c
@@ -4448,6 +4448,8 @@ bool Tiny_DisasmOne(const Tiny_State *state, int *ppc, char *buf, size_t maxlen)
             OP_NO_ARGS(MOD)
             OP_NO_ARGS(OR)
             OP_NO_ARGS(AND)
+            OP_NO_ARGS(SHIFT_LEFT)
+            OP_NO_ARGS(SHIFT_RIGHT)
             OP_NO_ARGS(LT)
             OP_NO_ARGS(LTE)
             OP_NO_ARGS(GT)
-- 
2.43.0


From 2d7393130c379023f9c1c1744f09e21f0538835c Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:38 +0000
Subject: [PATCH 25/61] fix: a foreign function called at the end of a
 statement saw the line of the next one

---
 tiny/include/tiny.h |  3 +++
 tiny/src/tiny.c     | 18 ++++++++++++++++--
 2 files changed, 19 insertions(+), 2 deletions(-)

diff --git a/tiny/include/tiny.h b/tiny/include/tiny.h
index 8b56fb6..6af6ae9 100644
--- a/tiny/include/tiny.h
+++ b/tiny/include/tiny.h
@@ -160,6 +160,9 @@ typedef struct Tiny_StateThread {
     int pc, fp, sp;
     Tiny_Value retVal;
 
+    // pc of the foreign call being executed, -1 if there is none
+    int foreignCallPC;
+
     Tiny_Value stack[TINY_THREAD_STACK_SIZE];
 
     int fc;
diff --git a/tiny/src/tiny.c b/tiny/src/tiny.c
index ae1af8c..f055af9 100644
--- a/tiny/src/tiny.c
+++ b/tiny/src/tiny.c
@@ -536,6 +536,8 @@ void Tiny_InitThreadWithContext(Tiny_StateThread *thread, const Tiny_State *stat
 
     thread->retVal = Tiny_Null;
 
+    thread->foreignCallPC = -1;
+
     thread->fc = 0;
 
     thread->userdata = NULL;
@@ -609,12 +611,15 @@ Tiny_Value Tiny_CallFunction(Tiny_StateThread *thread, int functionIndex, const
                              int count) {
     assert(thread->state && functionIndex >= 0);
 
-    int pc, fp, sp, fc;
+    int pc, fp, sp, fc, foreignCallPC;
 
     pc = thread->pc;
     fp = thread->fp;
     sp = thread->sp;
     fc = thread->fc;
+    foreignCallPC = thread->foreignCallPC;
+
+    thread->foreignCallPC = -1;
 
     Tiny_Value retVal = thread->retVal;
 
@@ -639,6 +644,7 @@ Tiny_Value Tiny_CallFunction(Tiny_StateThread *thread, int functionIndex, const
     thread->fp = fp;
     thread->sp = sp;
     thread->fc = fc;
+    thread->foreignCallPC = foreignCallPC;
 
     thread->retVal = retVal;
 
@@ -1428,12 +1434,18 @@ inline static bool ExecuteCycle(Tiny_StateThread *thread) {
         } break;
 
         case TINY_OP_CALLF: {
+            // The pc is advanced past this instruction before the call, which could put it in the
+            // next statement
+            int prevForeignCallPC = thread->foreignCallPC;
+            thread->foreignCallPC = thread->pc;
+
             ++thread->pc;
             Word nargs = state->program[thread->pc++];
             Tiny_ConstantIndex fIdx = ReadConstIndex(thread);
             int prevSize = thread->sp - nargs;
             thread->retVal = state->foreignFunctions[fIdx](thread, &thread->stack[prevSize], nargs);
             thread->sp = prevSize;
+            thread->foreignCallPC = prevForeignCallPC;
         } break;
 
         case TINY_OP_GETLOCAL: {
@@ -3736,7 +3748,9 @@ static void GetFileLineForPC(const Tiny_State *state, int pc, const char **fileN
 }
 
 void Tiny_GetExecutingFileLine(const Tiny_StateThread *thread, const char **fileName, int *line) {
-    GetFileLineForPC(thread->state, thread->pc, fileName, line);
+    int pc = thread->foreignCallPC >= 0 ? thread->foreignCallPC : thread->pc;
+
+    GetFileLineForPC(thread->state, pc, fileName, line);
 }
 
 static void CompileStatement(Tiny_State *state, Tiny_Expr *exp) {
-- 
2.43.0


From 617fd341c93a26e724a327a63e9caa45a7958b63 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:39 +0000
Subject: [PATCH 26/61] fix: floats and zero light natives could not be used as
 dict keys

---
 tiny/src/dict.c | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/tiny/src/dict.c b/tiny/src/dict.c
index 9234fe8..538db8c 100644
--- a/tiny/src/dict.c
+++ b/tiny/src/dict.c
@@ -22,6 +22,15 @@ static unsigned long HashValue(Tiny_Value value) {
             return (int)value.boolean + 1;
         case TINY_VAL_INT:
             return (unsigned long)value.i;
+        case TINY_VAL_FLOAT: {
+            // 0.0 and -0.0 are equal so they must have the same hash
+            double f = value.f == 0 ? 0 : value.f;
+
+            uint64_t bits = 0;
+            memcpy(&bits, &f, sizeof(bits));
+
+            return (unsigned long)(bits ^ (bits >> 32));
+        } break;
         case TINY_VAL_CONST_STRING:
         case TINY_VAL_STRING: {
             const char *start = Tiny_ToString(value);
@@ -32,11 +41,10 @@ static unsigned long HashValue(Tiny_Value value) {
         case TINY_VAL_STRUCT:
             return (uintptr_t)value.obj;
         default: {
-            void *ptr = Tiny_ToAddr(value);
-
-            assert(ptr);
+            // The address itself can be NULL (e.g. the i64 zero)
+            assert(value.type == TINY_VAL_LIGHT_NATIVE || value.type == TINY_VAL_NATIVE);
 
-            return (uintptr_t)ptr;
+            return (uintptr_t)Tiny_ToAddr(value);
         } break;
     }
 }
-- 
2.43.0


From 79d34c11bc98535f83a87aff1dbe3af2ca2be13f Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:41 +0000
Subject: [PATCH 27/61] fix: clearing, resizing and sorting an array which
 never had elements

---
 tiny/src/array.c | 8 ++++++--
 tiny/src/std.c   | 6 +++---
 2 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/tiny/src/array.c b/tiny/src/array.c
index 7f3f6b0..d1916c4 100644
--- a/tiny/src/array.c
+++ b/tiny/src/array.c
@@ -14,13 +14,17 @@ void InitArray(Array *array, Tiny_Context ctx) {
 void InitArrayEx(Array *array, Tiny_Context ctx, int length, const Tiny_Value *initValues) {
     InitArray(array, ctx);
 
+    if (length == 0) return;
+
     Tiny_Value *values = sb_add(&ctx, array->data, length);
     memcpy(values, initValues, sizeof(Tiny_Value) * length);
 }
 
 int ArrayLen(Array *array) { return sb_count(array->data); }
 
-void ArrayClear(Array *array) { stb__sbn(array->data) = 0; }
+void ArrayClear(Array *array) {
+    if (array->data) stb__sbn(array->data) = 0;
+}
 
 void ArrayResize(Array *array, int newLen, Tiny_Value newValue) {
     assert(newLen >= 0);
@@ -33,7 +37,7 @@ void ArrayResize(Array *array, int newLen, Tiny_Value newValue) {
         for (int i = len; i < newLen; ++i) {
             newValues[i] = newValue;
         }
-    } else {
+    } else if (newLen < len) {
         stb__sbn(array->data) = newLen;
     }
 }
diff --git a/tiny/src/std.c b/tiny/src/std.c
index f1e6685..ac9c65f 100644
--- a/tiny/src/std.c
+++ b/tiny/src/std.c
@@ -214,8 +214,6 @@ static Tiny_Value CreateArrayEx(Tiny_StateThread *thread, int count, const Tiny_
 
     InitArrayEx(array, thread->ctx, count, values);
 
-    memcpy(array->data, values, sizeof(Tiny_Value) * count);
-
     return Tiny_NewNative(thread, array, primitive ? &PrimitiveArrayProp : &ArrayProp);
 }
 
@@ -330,7 +328,9 @@ static int CompareInts(const void *aRaw, const void *bRaw) {
 static TINY_FOREIGN_FUNCTION(Lib_ArraySortInt) {
     Array *array = Tiny_ToAddr(args[0]);
 
-    qsort(array->data, ArrayLen(array), sizeof(Tiny_Value), CompareInts);
+    if (ArrayLen(array) > 0) {
+        qsort(array->data, ArrayLen(array), sizeof(Tiny_Value), CompareInts);
+    }
 
     return Tiny_Null;
 }
-- 
2.43.0


From a150fc6664f2053609bedc08a6a2e47a350c18e8 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:42 +0000
Subject: [PATCH 28/61] fix: sorting int arrays compared by overflowing,
 truncated subtraction

---
 tiny/src/std.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tiny/src/std.c b/tiny/src/std.c
index ac9c65f..1f8b132 100644
--- a/tiny/src/std.c
+++ b/tiny/src/std.c
@@ -322,7 +322,8 @@ static int CompareInts(const void *aRaw, const void *bRaw) {
     assert(a->type == TINY_VAL_INT);
     assert(b->type == TINY_VAL_INT);
 
-    return a->i - b->i;
+    // Subtracting could overflow
+    return (a->i > b->i) - (a->i < b->i);
 }
 
 static TINY_FOREIGN_FUNCTION(Lib_ArraySortInt) {
-- 
2.43.0


From 22b8af9b459e15f3f617c92433b0265695a3f46a Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:43 +0000
Subject: [PATCH 29/61] fix: strlen and indexing of strings with embedded zeros

---
 tiny/src/std.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/tiny/src/std.c b/tiny/src/std.c
index 1f8b132..7f67ba7 100644
--- a/tiny/src/std.c
+++ b/tiny/src/std.c
@@ -45,14 +45,14 @@ void __stdcall Sleep(DWORD dwMilliseconds);
 static Tiny_Value Strlen(Tiny_StateThread *thread, const Tiny_Value *args, int count) {
     Tiny_Value val = args[0];
 
-    return Tiny_NewInt(strlen(Tiny_ToString(val)));
+    return Tiny_NewInt(Tiny_StringLen(val));
 }
 
 static Tiny_Value Stridx(Tiny_StateThread *thread, const Tiny_Value *args, int count) {
     const char *s = Tiny_ToString(args[0]);
-    size_t len = strlen(s);
+    size_t len = Tiny_StringLen(args[0]);
 
-    int i = Tiny_ToInt(args[1]);
+    Tiny_Int i = Tiny_ToInt(args[1]);
 
     assert(i >= 0 && i < len);
 
-- 
2.43.0


From a0c657b897e2c2bae6277fafc42976d625fa5e77 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:45 +0000
Subject: [PATCH 30/61] fix: writing strings with embedded zeros to files,
 short reads left garbage after the string

---
 tiny/src/std.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/tiny/src/std.c b/tiny/src/std.c
index 7f67ba7..b38695d 100644
--- a/tiny/src/std.c
+++ b/tiny/src/std.c
@@ -114,7 +114,7 @@ static Tiny_Value Lib_Fread(Tiny_StateThread *thread, const Tiny_Value *args, in
         return Tiny_NewConstString("");
     }
 
-    str[num] = '\0';
+    str[readCount] = '\0';
 
     return Tiny_NewString(thread, str, readCount);
 }
@@ -131,7 +131,7 @@ static Tiny_Value Lib_Fseek(Tiny_StateThread *thread, const Tiny_Value *args, in
 static Tiny_Value Lib_Fwrite(Tiny_StateThread *thread, const Tiny_Value *args, int count) {
     FILE *file = Tiny_ToAddr(args[0]);
     const char *str = Tiny_ToString(args[1]);
-    int num = count == 3 ? (int)Tiny_ToNumber(args[2]) : (int)strlen(str);
+    int num = count == 3 ? (int)Tiny_ToNumber(args[2]) : (int)Tiny_StringLen(args[1]);
 
     return Tiny_NewInt(fwrite(str, 1, num, file));
 }
@@ -166,7 +166,7 @@ static Tiny_Value Lib_ReadFile(Tiny_StateThread *thread, const Tiny_Value *args,
 }
 
 static Tiny_Value Lib_WriteFile(Tiny_StateThread *thread, const Tiny_Value *args, int count) {
-    FILE *file = fopen(Tiny_ToString(args[0]), "w");
+    FILE *file = fopen(Tiny_ToString(args[0]), "wb");
 
     if (!file) {
         return Tiny_NewBool(false);
@@ -174,7 +174,7 @@ static Tiny_Value Lib_WriteFile(Tiny_StateThread *thread, const Tiny_Value *args
 
     const char *s = Tiny_ToString(args[1]);
 
-    fwrite(s, 1, strlen(s), file);
+    fwrite(s, 1, Tiny_StringLen(args[1]), file);
     fclose(file);
 
     return Tiny_NewBool(true);
-- 
2.43.0


From 85babf2ff806c64b3c6c937466df55c2a7b8e06d Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:43 +0000
Subject: [PATCH 31/61] fix: fwrite could be made to write memory past the end
 of the string

---
 tiny/src/std.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/tiny/src/std.c b/tiny/src/std.c
index b38695d..af10bc8 100644
--- a/tiny/src/std.c
+++ b/tiny/src/std.c
@@ -131,7 +131,12 @@ static Tiny_Value Lib_Fseek(Tiny_StateThread *thread, const Tiny_Value *args, in
 static Tiny_Value Lib_Fwrite(Tiny_StateThread *thread, const Tiny_Value *args, int count) {
     FILE *file = Tiny_ToAddr(args[0]);
     const char *str = Tiny_ToString(args[1]);
-    int num = count == 3 ? (int)Tiny_ToNumber(args[2]) : (int)Tiny_StringLen(args[1]);
+    int len = (int)Tiny_StringLen(args[1]);
+    int num = count == 3 ? (int)Tiny_ToNumber(args[2]) : len;
+
+    // Don't write memory past the end of the string
+    if (num > len) num = len;
+    if (num < 0) num = 0;
 
     return Tiny_NewInt(fwrite(str, 1, num, file));
 }
-- 
2.43.0


From 9b73bdfa15936bc7023307ebba799baa8f6d3b84 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:45 +0000
Subject: [PATCH 32/61] fix: reading or compiling a directory crashed

---
 tiny/src/std.c  | 10 +++++++++-
 tiny/src/tiny.c | 17 ++++++++++++++++-
 2 files changed, 25 insertions(+), 2 deletions(-)

diff --git a/tiny/src/std.c b/tiny/src/std.c
index af10bc8..6fcb5b7 100644
--- a/tiny/src/std.c
+++ b/tiny/src/std.c
@@ -160,8 +160,16 @@ static Tiny_Value Lib_ReadFile(Tiny_StateThread *thread, const Tiny_Value *args,
     long len = ftell(file);
     rewind(file);
 
+    // Opening can succeed for something which can't be read (e.g. a directory)
+    if (len < 0 || (fgetc(file) == EOF && ferror(file))) {
+        fclose(file);
+        return Tiny_Null;
+    }
+
+    rewind(file);
+
     char *s = Tiny_AllocUsingContext(thread->ctx, NULL, len + 1);
-    fread(s, 1, len, file);
+    len = (long)fread(s, 1, len, file);
 
     s[len] = '\0';
 
diff --git a/tiny/src/tiny.c b/tiny/src/tiny.c
index f055af9..9f6facd 100644
--- a/tiny/src/tiny.c
+++ b/tiny/src/tiny.c
@@ -4321,11 +4321,26 @@ Tiny_CompileResult Tiny_CompileFile(Tiny_State *state, const char *filename) {
 
     long len = ftell(file);
 
+    rewind(file);
+
+    // Opening can succeed for something which can't be read (e.g. a directory)
+    if (len < 0 || (fgetc(file) == EOF && ferror(file))) {
+        fclose(file);
+
+        Tiny_CompileResult result = {
+            .type = TINY_COMPILE_ERROR,
+        };
+
+        snprintf(result.error.msg, sizeof(result.error.msg), "Error: Unable to read file '%s'\n",
+                 filename);
+        return result;
+    }
+
     char *s = TMalloc(&state->ctx, len + 1);
 
     rewind(file);
 
-    fread(s, 1, len, file);
+    len = (long)fread(s, 1, len, file);
     s[len] = 0;
 
     fclose(file);
-- 
2.43.0


From dadde2b43ae6115426a061040a724d76ee2b427e Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:46 +0000
Subject: [PATCH 33/61] fix: numeric conversions truncated to 32-bit ints and
 single precision floats

---
 tiny/src/std.c | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/tiny/src/std.c b/tiny/src/std.c
index 6fcb5b7..8f6303d 100644
--- a/tiny/src/std.c
+++ b/tiny/src/std.c
@@ -520,7 +520,7 @@ static Tiny_Value Lib_Substr(Tiny_StateThread *thread, const Tiny_Value *args, i
 
 static Tiny_Value Lib_Ston(Tiny_StateThread *thread, const Tiny_Value *args, int count) {
     const char *str = Tiny_ToString(args[0]);
-    float value = strtof(str, NULL);
+    double value = strtod(str, NULL);
 
     return Tiny_NewFloat(value);
 }
@@ -529,18 +529,28 @@ static Tiny_Value Lib_Stoi(Tiny_StateThread *thread, const Tiny_Value *args, int
     const char *str = Tiny_ToString(args[0]);
     int base = count > 1 ? Tiny_ToInt(args[1]) : 10;
 
-    long value = strtol(str, NULL, base);
+    Tiny_Int value = strtoll(str, NULL, base);
 
-    return Tiny_NewInt((int)value);
+    return Tiny_NewInt(value);
 }
 
 static Tiny_Value Lib_Ntos(Tiny_StateThread *thread, const Tiny_Value *args, int count) {
-    float num = Tiny_ToNumber(args[0]);
-
     char buf[32];
 
+    if (args[0].type == TINY_VAL_INT) {
+        int c = snprintf(buf, sizeof(buf), "%lld", (long long)Tiny_ToInt(args[0]));
+        return Tiny_NewStringCopy(thread, buf, c);
+    }
+
+    double num = Tiny_ToNumber(args[0]);
+
     int c = snprintf(buf, sizeof(buf), "%g", num);
 
+    // Use as many digits as it takes to get the same number back
+    for (int digits = 7; digits <= 17 && num == num && strtod(buf, NULL) != num; ++digits) {
+        c = snprintf(buf, sizeof(buf), "%.*g", digits, num);
+    }
+
     return Tiny_NewStringCopy(thread, buf, c);
 }
 
@@ -555,7 +565,7 @@ static TINY_FOREIGN_FUNCTION(Lib_IntToStr) {
 }
 
 static Tiny_Value Lib_Time(Tiny_StateThread *thread, const Tiny_Value *args, int count) {
-    return Tiny_NewInt((int)time(NULL));
+    return Tiny_NewInt(time(NULL));
 }
 
 static Tiny_Value SeedRand(Tiny_StateThread *thread, const Tiny_Value *args, int count) {
@@ -719,11 +729,11 @@ static Tiny_Value Exit(Tiny_StateThread *thread, const Tiny_Value *args, int cou
 }
 
 static Tiny_Value Lib_Floor(Tiny_StateThread *thread, const Tiny_Value *args, int count) {
-    return Tiny_NewFloat(floorf(Tiny_ToFloat(args[0])));
+    return Tiny_NewFloat(floor(Tiny_ToFloat(args[0])));
 }
 
 static Tiny_Value Lib_Ceil(Tiny_StateThread *thread, const Tiny_Value *args, int count) {
-    return Tiny_NewFloat(ceilf(Tiny_ToFloat(args[0])));
+    return Tiny_NewFloat(ceil(Tiny_ToFloat(args[0])));
 }
 
 #ifdef _WIN32
-- 
2.43.0


From 8b10c21a4467b2cb026142987ef657a1e292ac9c Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:47 +0000
Subject: [PATCH 34/61] fix: input never returned at the end of the input

---
 tiny/src/std.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/tiny/src/std.c b/tiny/src/std.c
index 8f6303d..37dc3f3 100644
--- a/tiny/src/std.c
+++ b/tiny/src/std.c
@@ -585,9 +585,8 @@ static Tiny_Value Lib_Input(Tiny_StateThread *thread, const Tiny_Value *args, in
     size_t bufferCapacity = 8;
 
     int c = getc(stdin);
-    int i = 0;
 
-    while (c != '\n') {
+    while (c != '\n' && c != EOF) {
         if (bufferLength + 1 >= bufferCapacity) {
             bufferCapacity *= 2;
             buffer = Tiny_AllocUsingContext(thread->ctx, buffer, bufferCapacity);
-- 
2.43.0


From 20e19e4cc957f5ffd8ee6af3bafb80d699eb7c0c Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:48 +0000
Subject: [PATCH 35/61] fix: printf of %%, a trailing %, bools, primitive
 arrays and strings with embedded zeros

---
 tiny/src/std.c | 29 +++++++++++++++++------------
 1 file changed, 17 insertions(+), 12 deletions(-)

diff --git a/tiny/src/std.c b/tiny/src/std.c
index 37dc3f3..570d5fa 100644
--- a/tiny/src/std.c
+++ b/tiny/src/std.c
@@ -610,6 +610,9 @@ static void Print(Tiny_Value val, bool repr) {
         case TINY_VAL_NULL:
             printf("<null>");
             break;
+        case TINY_VAL_BOOL:
+            printf(val.boolean ? "true" : "false");
+            break;
         case TINY_VAL_INT:
             printf("%lld", (int64_t)val.i);
             break;
@@ -624,17 +627,17 @@ static void Print(Tiny_Value val, bool repr) {
             }
             break;
         case TINY_VAL_STRING:
-            if (repr) {
-                printf("\"%.*s\"", (int)val.obj->string.len, val.obj->string.ptr);
-            } else {
-                printf("%.*s", (int)val.obj->string.len, val.obj->string.ptr);
-            }
+            if (repr) putc('"', stdout);
+            // Not using printf because it would stop at an embedded zero
+            fwrite(val.obj->string.ptr, 1, val.obj->string.len, stdout);
+            if (repr) putc('"', stdout);
             break;
         case TINY_VAL_LIGHT_NATIVE:
             printf("<light native at %p>", val.addr);
             break;
         case TINY_VAL_NATIVE: {
-            if (repr && val.obj->nat.prop == &ArrayProp) {
+            if (repr &&
+                (val.obj->nat.prop == &ArrayProp || val.obj->nat.prop == &PrimitiveArrayProp)) {
                 printf("[");
 
                 Array *array = val.obj->nat.addr;
@@ -676,11 +679,16 @@ static void Print(Tiny_Value val, bool repr) {
 
 static Tiny_Value Lib_Printf(Tiny_StateThread *thread, const Tiny_Value *args, int count) {
     const char *fmt = Tiny_ToString(args[0]);
+    const char *fmtEnd = fmt + Tiny_StringLen(args[0]);
 
     int arg = 1;
 
-    while (*fmt) {
-        if (*fmt == '%') {
+    while (fmt < fmtEnd) {
+        if (*fmt == '%' && fmt + 1 < fmtEnd && fmt[1] == '%') {
+            // Doesn't use up an argument
+            putc('%', stdout);
+            fmt += 2;
+        } else if (*fmt == '%' && fmt + 1 < fmtEnd) {
             if (arg >= count) {
                 fprintf(stderr, "Too few arguments for format '%s'\n", fmt);
                 exit(1);
@@ -695,7 +703,7 @@ static Tiny_Value Lib_Printf(Tiny_StateThread *thread, const Tiny_Value *args, i
                     printf("%f", args[arg].f);
                     break;
                 case 's':
-                    printf("%.*s", (int)Tiny_StringLen(args[arg]), Tiny_ToString(args[arg]));
+                    fwrite(Tiny_ToString(args[arg]), 1, Tiny_StringLen(args[arg]), stdout);
                     break;
                 case 'c':
                     printf("%c", (char)args[arg].i);
@@ -704,9 +712,6 @@ static Tiny_Value Lib_Printf(Tiny_StateThread *thread, const Tiny_Value *args, i
                 case 'q':
                     Print(args[arg], true);
                     break;
-                case '%':
-                    putc('%', stdout);
-
                 default:
                     printf("\nInvalid format specifier '%c'\n", *fmt);
             }
-- 
2.43.0


From 5d86dd1a819e8569d7df1c9423f39af2ecc5f562 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:26 +0000
Subject: [PATCH 36/61] fix: JSON rendering of strings read past its arguments
 and did not escape; ints lost digits

---
 tiny/src/std.c | 44 ++++++++++++++++++++++++++++++++++++--------
 1 file changed, 36 insertions(+), 8 deletions(-)

diff --git a/tiny/src/std.c b/tiny/src/std.c
index 570d5fa..9f3cfe3 100644
--- a/tiny/src/std.c
+++ b/tiny/src/std.c
@@ -1024,6 +1024,36 @@ void Tiny_BindI64(Tiny_State *state) {
     Tiny_BindFunction(state, "i64_to_string(i64): str", Lib_I64ToString);
 }
 
+// Quotes and escapes the string
+static Tiny_Value StringToJson(Tiny_StateThread *thread, const Tiny_Value value) {
+    const char *s = Tiny_ToString(value);
+    size_t len = Tiny_StringLen(value);
+
+    // In the worst case every char turns into \u00XX
+    char *json = Tiny_AllocUsingContext(thread->ctx, NULL, len * 6 + 3);
+    size_t used = 0;
+
+    json[used++] = '"';
+
+    for (size_t i = 0; i < len; ++i) {
+        unsigned char c = (unsigned char)s[i];
+
+        if (c == '"' || c == '\\') {
+            json[used++] = '\\';
+            json[used++] = (char)c;
+        } else if (c < 0x20) {
+            used += sprintf(json + used, "\\u%04x", c);
+        } else {
+            json[used++] = (char)c;
+        }
+    }
+
+    json[used++] = '"';
+    json[used] = '\0';
+
+    return Tiny_NewString(thread, json, used);
+}
+
 static TINY_FOREIGN_FUNCTION(Lib_PrimitiveToJson) {
     assert(count == 1);
 
@@ -1033,16 +1063,14 @@ static TINY_FOREIGN_FUNCTION(Lib_PrimitiveToJson) {
         case TINY_VAL_BOOL:
             return Tiny_NewConstString(args[0].boolean ? "true" : "false");
         case TINY_VAL_FLOAT:
-        case TINY_VAL_INT:
+            // JSON doesn't have these
+            if (isnan(args[0].f) || isinf(args[0].f)) return Tiny_NewConstString("null");
             return Lib_Ntos(thread, args, count);
+        case TINY_VAL_INT:
+            return Lib_IntToStr(thread, args, count);
         case TINY_VAL_CONST_STRING:
-        case TINY_VAL_STRING: {
-            // TODO(Apaar): Escape args[0] string
-            Tiny_Value forwardArgs[] = {Tiny_NewConstString("\""), args[0],
-                                        Tiny_NewConstString("\"")};
-
-            return Strcat(thread, forwardArgs, sizeof(forwardArgs));
-        } break;
+        case TINY_VAL_STRING:
+            return StringToJson(thread, args[0]);
 
         default:
             // TODO(Apaar): Panic in this scenario
-- 
2.43.0


From 8219b9908fb0cb81a56b4e23746c2629d4fd15d0 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:27 +0000
Subject: [PATCH 37/61] fix: use json overflowed its buffer, never ended for
 recursive structs and crashed on unknown types

---
 tiny/src/std.c | 130 +++++++++++++++++++++++++++++++++----------------
 1 file changed, 89 insertions(+), 41 deletions(-)

diff --git a/tiny/src/std.c b/tiny/src/std.c
index 9f3cfe3..4191431 100644
--- a/tiny/src/std.c
+++ b/tiny/src/std.c
@@ -2,6 +2,7 @@
 #include <errno.h>
 #include <limits.h>
 #include <math.h>
+#include <stdarg.h>
 #include <stdio.h>
 #include <stdlib.h>
 #include <string.h>
@@ -9,6 +10,7 @@
 
 #include "detail.h"
 #include "dict.h"
+#include "stretchy_buffer.h"
 #include "tiny.h"
 
 #ifdef _WIN32
@@ -796,64 +798,110 @@ static Tiny_Value Lib_I64ToString(Tiny_StateThread *thread, const Tiny_Value *ar
     return Tiny_NewStringCopy(thread, buf, len);
 }
 
-static Tiny_MacroResult BindJsonSerializerForType(Tiny_State *state, const Tiny_Symbol *sym) {
-    if (sym->type == TINY_SYM_TAG_FOREIGN) {
-        // For foreign types, it's up to the calling code to set up an appropriate serializer.
-        // We can't do it automatically.
-        //
-        // e.g. If there was an array_str, then this assumes there's an "array_str_to_json".
-        //
-        // Basically %s_to_json
-        return (Tiny_MacroResult){.type = TINY_MACRO_SUCCESS};
-    }
+// Appends to the given stretchy buffer, which is always null-terminated afterwards
+static void AppendFormat(Tiny_State *state, char **buf, const char *fmt, ...) {
+    va_list args;
 
-    if (sym->type != TINY_SYM_TAG_STRUCT) {
-        // It's a primitive type, we've already defined functions for all the types below.
-        return (Tiny_MacroResult){.type = TINY_MACRO_SUCCESS};
+    va_start(args, fmt);
+    int len = vsnprintf(NULL, 0, fmt, args);
+    va_end(args);
+
+    char *dest = sb_add(&state->ctx, *buf, len + 1);
+
+    va_start(args, fmt);
+    vsnprintf(dest, len + 1, fmt, args);
+    va_end(args);
+
+    // The next append overwrites the null-terminator
+    stb__sbn(*buf) -= 1;
+}
+
+static const Tiny_Symbol *GetNonNullableTag(const Tiny_Symbol *tag) {
+    return tag->type == TINY_SYM_TAG_NULLABLE ? tag->nullableTag : tag;
+}
+
+// Adds the type to the array if we have to generate a serializer for it
+static void AddJsonType(Tiny_State *state, const Tiny_Symbol ***types, const Tiny_Symbol *sym) {
+    // For foreign types, it's up to the calling code to set up an appropriate serializer.
+    // We can't do it automatically.
+    //
+    // e.g. If there was an array_str, then this assumes there's an "array_str_to_json".
+    //
+    // Basically %s_to_json
+    //
+    // For primitive types, we've already defined functions.
+    if (sym->type != TINY_SYM_TAG_STRUCT) return;
+
+    for (int i = 0; i < sb_count(*types); ++i) {
+        if ((*types)[i] == sym) return;
     }
 
-    // Hopefully enough lol?
-    char buf[2048] = {0};
-    int used = 0;
+    char *name = NULL;
+    AppendFormat(state, &name, "%s_to_json", sym->name);
 
-    snprintf(buf, sizeof(buf), "%s_to_json", sym->name);
+    bool alreadyBound = Tiny_FindFuncSymbol(state, name) != NULL;
+    sb_free(&state->ctx, name);
 
-    if (Tiny_FindFuncSymbol(state, buf)) {
-        // Already bound, don't bother
-        return (Tiny_MacroResult){.type = TINY_MACRO_SUCCESS};
+    if (!alreadyBound) {
+        sb_push(&state->ctx, *types, sym);
     }
+}
 
-    used +=
-        snprintf(buf, sizeof(buf), "func %s_to_json(v: %s): str {\n\treturn strcat(\"{\",\n\t\t",
-                 sym->name, sym->name);
+static Tiny_MacroResult BindJsonSerializerForType(Tiny_State *state, const Tiny_Symbol *sym) {
+    // The serializers of all the structs this one refers to (which may include itself) are
+    // compiled together
+    const Tiny_Symbol **types = NULL;
+    AddJsonType(state, &types, sym);
 
-    for (int i = 0; i < Tiny_SymbolArrayCount(sym->sstruct.fields); ++i) {
-        if (i > 0) {
-            used += snprintf(buf + used, sizeof(buf) - used, ", \",\",\n\t\t");
-        }
+    char *code = NULL;
 
-        const Tiny_Symbol *fieldSym = sym->sstruct.fields[i];
+    for (int i = 0; i < sb_count(types); ++i) {
+        const Tiny_Symbol *type = types[i];
 
-        BindJsonSerializerForType(state, fieldSym->fieldTag);
+        AppendFormat(state, &code, "func %s_to_json(v: %s): str {\n\ts := \"{\"\n", type->name,
+                     type->name);
 
-        used += snprintf(buf + used, sizeof(buf) - used, "\"\\\"%s\\\":\", %s_to_json(v.%s)",
-                         fieldSym->name, fieldSym->fieldTag->name, fieldSym->name);
-    }
+        for (int j = 0; j < (int)Tiny_SymbolArrayCount(type->sstruct.fields); ++j) {
+            const Tiny_Symbol *fieldSym = type->sstruct.fields[j];
+            const char *name = fieldSym->name;
+            const char *tagName = GetNonNullableTag(fieldSym->fieldTag)->name;
+
+            AddJsonType(state, &types, GetNonNullableTag(fieldSym->fieldTag));
+
+            AppendFormat(state, &code, "\ts = strcat(s, \"%s\\\"%s\\\":\")\n", j > 0 ? "," : "",
+                         name);
+
+            if (fieldSym->fieldTag->type == TINY_SYM_TAG_NULLABLE) {
+                AppendFormat(state, &code,
+                             "\tif v.%s == null { s = strcat(s, \"null\") } else { s = strcat(s, "
+                             "\"\", %s_to_json(cast(cast(v.%s, any), %s))) }\n",
+                             name, tagName, name, tagName);
+            } else {
+                AppendFormat(state, &code, "\ts = strcat(s, \"\", %s_to_json(v.%s))\n", tagName,
+                             name);
+            }
+        }
 
-    used += snprintf(buf + used, sizeof(buf) - used, ",\n\t\"}\")\n}");
+        AppendFormat(state, &code, "\treturn strcat(s, \"}\")\n}\n");
+    }
 
-    Tiny_CompileResult compileResult = Tiny_CompileString(state, "(json mod)", buf);
+    Tiny_MacroResult macroResult = {.type = TINY_MACRO_SUCCESS};
 
-    if (compileResult.type != TINY_COMPILE_SUCCESS) {
-        Tiny_MacroResult macroResult = {.type = TINY_MACRO_ERROR};
+    if (code) {
+        Tiny_CompileResult compileResult = Tiny_CompileString(state, "(json mod)", code);
 
-        snprintf(macroResult.error.msg, sizeof(macroResult.error.msg),
-                 "Failed to compile JSON code: %s", compileResult.error.msg);
+        if (compileResult.type != TINY_COMPILE_SUCCESS) {
+            macroResult.type = TINY_MACRO_ERROR;
 
-        return macroResult;
+            snprintf(macroResult.error.msg, sizeof(macroResult.error.msg),
+                     "Failed to compile JSON code: %s", compileResult.error.msg);
+        }
     }
 
-    return (Tiny_MacroResult){.type = TINY_MACRO_SUCCESS};
+    sb_free(&state->ctx, code);
+    sb_free(&state->ctx, types);
+
+    return macroResult;
 }
 
 static TINY_MACRO_FUNCTION(JsonMacroFunction) {
@@ -866,7 +914,7 @@ static TINY_MACRO_FUNCTION(JsonMacroFunction) {
 
     const Tiny_Symbol *sym = Tiny_FindTypeSymbol(state, args[0]);
 
-    if (sym->type != TINY_SYM_TAG_STRUCT) {
+    if (!sym || sym->type != TINY_SYM_TAG_STRUCT) {
         return (Tiny_MacroResult){
             .type = TINY_MACRO_ERROR,
             .error.msg = "Must specify struct type as argument to 'use json_mod'",
-- 
2.43.0


From b5bc365c5605c40dbc1d6128d67853d36abc34d2 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:12 +0000
Subject: [PATCH 38/61] fix: use delegate crashed on unknown functions,
 overflowed its buffers and ignored its errors

---
 tiny/src/std.c | 99 ++++++++++++++++++++++++++++----------------------
 1 file changed, 56 insertions(+), 43 deletions(-)

diff --git a/tiny/src/std.c b/tiny/src/std.c
index 4191431..31d63a8 100644
--- a/tiny/src/std.c
+++ b/tiny/src/std.c
@@ -1126,6 +1126,12 @@ static TINY_FOREIGN_FUNCTION(Lib_PrimitiveToJson) {
     }
 }
 
+static void AppendDelegateTagName(Tiny_State *state, char **buf, const Tiny_Symbol *tag) {
+    // '?' can't be part of a name
+    AppendFormat(state, buf, tag->type == TINY_SYM_TAG_NULLABLE ? "nullable_%s" : "%s",
+                 GetNonNullableTag(tag)->name);
+}
+
 static TINY_MACRO_FUNCTION(DelegateMacroFunction) {
     if (nargs != 1) {
         return (Tiny_MacroResult){
@@ -1141,71 +1147,78 @@ static TINY_MACRO_FUNCTION(DelegateMacroFunction) {
         };
     }
 
-    char typeBuf[512] = {0};
-    char argsBuf[512] = {0};
-    char paramsBuf[512] = {0};
+    const Tiny_Symbol *func = Tiny_FindFuncSymbol(state, args[0]);
 
-    int typeUsed = 0;
-    int argsUsed = 0;
-    int paramsUsed = 0;
+    if (!func || func->type != TINY_SYM_FUNCTION) {
+        return (Tiny_MacroResult){
+            .type = TINY_MACRO_ERROR,
+            .error.msg = "'use delegate' only works with functions defined in Tiny code",
+        };
+    }
 
-    typeUsed += snprintf(typeBuf, sizeof(typeBuf), "delegate_");
+    char *typeName = NULL;
+    char *argsCode = NULL;
+    char *paramsCode = NULL;
 
-    const Tiny_Symbol *func = Tiny_FindFuncSymbol(state, args[0]);
+    AppendFormat(state, &typeName, "delegate_");
+    AppendFormat(state, &argsCode, "%s", "");
+    AppendFormat(state, &paramsCode, "%s", "");
 
-    for (int i = 0;
-         i < Tiny_SymbolArrayCount(func->type == TINY_SYM_FUNCTION ? func->func.args
-                                                                   : func->foreignFunc.argTags);
-         ++i) {
-        if (i > 0) {
-            typeUsed += snprintf(typeBuf + typeUsed, sizeof(typeBuf) - typeUsed, "_");
-            argsUsed += snprintf(argsBuf + argsUsed, sizeof(argsBuf) - argsUsed, ", ");
-            paramsUsed += snprintf(paramsBuf + paramsUsed, sizeof(paramsBuf) - paramsUsed, ", ");
-        }
+    for (int i = 0; i < (int)Tiny_SymbolArrayCount(func->func.args); ++i) {
+        const Tiny_Symbol *argTag = func->func.args[i]->var.tag;
 
-        const Tiny_Symbol *argTag = func->type == TINY_SYM_FUNCTION ? func->func.args[i]->var.tag
-                                                                    : func->foreignFunc.argTags[i];
+        AppendDelegateTagName(state, &typeName, argTag);
+        AppendFormat(state, &typeName, "_");
 
-        typeUsed += snprintf(typeBuf + typeUsed, sizeof(typeBuf) - typeUsed, "%s", argTag->name);
-        argsUsed +=
-            snprintf(argsBuf + argsUsed, sizeof(argsBuf) - argsUsed, "a%d: %s", i, argTag->name);
-        paramsUsed += snprintf(paramsBuf + paramsUsed, sizeof(paramsBuf) - paramsUsed, "a%d", i);
+        AppendFormat(state, &argsCode, ", a%d: %s", i, argTag->name);
+        AppendFormat(state, &paramsCode, ", a%d", i);
     }
 
-    const Tiny_Symbol *returnTag =
-        func->type == TINY_SYM_FUNCTION ? func->func.returnTag : func->foreignFunc.returnTag;
+    const Tiny_Symbol *returnTag = func->func.returnTag;
 
-    const char *returnTagName = returnTag->name;
+    AppendDelegateTagName(state, &typeName, returnTag);
 
-    typeUsed += snprintf(typeBuf + typeUsed, sizeof(typeBuf) - typeUsed, "_%s", returnTagName);
+    char *code = NULL;
 
-    if (!Tiny_FindTypeSymbol(state, typeBuf)) {
-        Tiny_RegisterType(state, typeBuf);
+    if (!Tiny_FindTypeSymbol(state, typeName)) {
+        Tiny_RegisterType(state, typeName);
 
-        char callBuf[512] = {0};
+        AppendFormat(state, &code, "func %s_call(f: %s%s): %s { ", typeName, typeName, argsCode,
+                     returnTag->name);
 
         if (returnTag->type != TINY_SYM_TAG_VOID) {
-            snprintf(callBuf, sizeof(callBuf),
-                     "func %s_call(f: %s, %s): %s { return cast(call_function(f, %s), %s) }",
-                     typeBuf, typeBuf, argsBuf, returnTagName, paramsBuf, returnTagName);
+            AppendFormat(state, &code, "return cast(call_function(f%s), %s) }\n", paramsCode,
+                         returnTag->name);
         } else {
-            snprintf(callBuf, sizeof(callBuf), "func %s_call(f: %s, %s) { call_function(f, %s) }",
-                     typeBuf, typeBuf, argsBuf, paramsBuf);
+            AppendFormat(state, &code, "call_function(f%s) }\n", paramsCode);
         }
-
-        Tiny_CompileString(state, "(delegate call function)", callBuf);
     }
 
     if (!Tiny_FindFuncSymbol(state, asName)) {
-        char createBuf[512] = {0};
-        snprintf(createBuf, sizeof(createBuf),
-                 "func %s(): %s { return cast(get_function_index(\"%s\"), %s) }", asName, typeBuf,
-                 args[0], typeBuf);
+        AppendFormat(state, &code,
+                     "func %s(): %s { return cast(get_function_index(\"%s\"), %s) }\n", asName,
+                     typeName, args[0], typeName);
+    }
 
-        Tiny_CompileString(state, "(delegate create function)", createBuf);
+    Tiny_MacroResult macroResult = {.type = TINY_MACRO_SUCCESS};
+
+    if (code) {
+        Tiny_CompileResult compileResult = Tiny_CompileString(state, "(delegate mod)", code);
+
+        if (compileResult.type != TINY_COMPILE_SUCCESS) {
+            macroResult.type = TINY_MACRO_ERROR;
+
+            snprintf(macroResult.error.msg, sizeof(macroResult.error.msg),
+                     "Failed to compile delegate code: %s", compileResult.error.msg);
+        }
     }
 
-    return (Tiny_MacroResult){.type = TINY_MACRO_SUCCESS};
+    sb_free(&state->ctx, code);
+    sb_free(&state->ctx, paramsCode);
+    sb_free(&state->ctx, argsCode);
+    sb_free(&state->ctx, typeName);
+
+    return macroResult;
 }
 
 static TINY_FOREIGN_FUNCTION(GetFunctionIndex) {
-- 
2.43.0


From 2423c35cbfed05f085848aa5d9dd5279cb72db29 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:13 +0000
Subject: [PATCH 39/61] fix: array_any and array_str of the dict library had no
 functions; use array exited on name clashes and overflowed its buffers

---
 tiny/src/std.c | 137 +++++++++++++++++++++++++++++--------------------
 1 file changed, 80 insertions(+), 57 deletions(-)

diff --git a/tiny/src/std.c b/tiny/src/std.c
index 31d63a8..febcd3b 100644
--- a/tiny/src/std.c
+++ b/tiny/src/std.c
@@ -924,6 +924,75 @@ static TINY_MACRO_FUNCTION(JsonMacroFunction) {
     return BindJsonSerializerForType(state, sym);
 }
 
+// Binds the functions of an array type. Returns false, with nothing bound, if a function with one of
+// the names already exists.
+static bool BindArrayType(Tiny_State *state, const char *name, const Tiny_Symbol *elemType) {
+    const char *elem = elemType->name;
+
+    bool primitive = elemType->type == TINY_SYM_TAG_BOOL || elemType->type == TINY_SYM_TAG_INT ||
+                     elemType->type == TINY_SYM_TAG_FLOAT;
+
+    // Each %1 is replaced by the name of the array type and each %2 by the name of the element type
+    const struct {
+        const char *sig;
+        Tiny_ForeignFunction func;
+    } funcs[] = {
+        {"%1(...): %1", primitive ? CreatePrimitiveArray : CreateArray},
+        {"%1_clear(%1): void", Lib_ArrayClear},
+        {"%1_resize(%1, int): void", Lib_ArrayResize},
+        {"%1_resize_fill(%1, int, %2): void", Lib_ArrayResizeFill},
+        {"%1_get(%1, int): %2", Lib_ArrayGet},
+        // Conform to the array index syntax
+        {"%1_get_index(%1, int): %2", Lib_ArrayGet},
+        {"%1_set(%1, int, %2): void", Lib_ArraySet},
+        // Conform to the array index syntax
+        {"%1_set_index(%1, int, %2): void", Lib_ArraySet},
+        {"%1_len(%1): int", Lib_ArrayLen},
+        {"%1_push(%1, %2): void", Lib_ArrayPush},
+        {"%1_pop(%1): %2", Lib_ArrayPop},
+        {"%1_shift(%1): %2", Lib_ArrayShift},
+        {"%1_remove(%1, int): void", Lib_ArrayRemove},
+        {"%1_insert(%1, int, %2): void", Lib_ArrayInsert},
+        // TODO(Apaar): Add functions to sort other types
+        {"%1_sort(%1): void", elemType->type == TINY_SYM_TAG_INT ? Lib_ArraySortInt : NULL},
+    };
+
+    const int numFuncs = sizeof(funcs) / sizeof(funcs[0]);
+    char *sigs[sizeof(funcs) / sizeof(funcs[0])] = {0};
+
+    bool unique = true;
+
+    for (int i = 0; i < numFuncs; ++i) {
+        for (const char *s = funcs[i].sig; *s; ++s) {
+            // This is where the name of the function ends
+            if (*s == '(' && Tiny_FindFuncSymbol(state, sigs[i])) {
+                unique = false;
+            }
+
+            if (*s == '%') {
+                ++s;
+                AppendFormat(state, &sigs[i], "%s", *s == '1' ? name : elem);
+            } else {
+                AppendFormat(state, &sigs[i], "%c", *s);
+            }
+        }
+    }
+
+    if (unique) {
+        Tiny_RegisterType(state, name);
+    }
+
+    for (int i = 0; i < numFuncs; ++i) {
+        if (unique && funcs[i].func) {
+            Tiny_BindFunction(state, sigs[i], funcs[i].func);
+        }
+
+        sb_free(&state->ctx, sigs[i]);
+    }
+
+    return unique;
+}
+
 static TINY_MACRO_FUNCTION(ArrayMacroFunction) {
     if (nargs != 1) {
         return (Tiny_MacroResult){
@@ -953,61 +1022,11 @@ static TINY_MACRO_FUNCTION(ArrayMacroFunction) {
         };
     }
 
-    Tiny_RegisterType(state, asName);
-
-    char sigbuf[512] = {0};
-
-    bool primitive = elemType->type == TINY_SYM_TAG_BOOL || elemType->type == TINY_SYM_TAG_INT ||
-                     elemType->type == TINY_SYM_TAG_FLOAT;
-
-    snprintf(sigbuf, sizeof(sigbuf), "%s(...): %s", asName, asName);
-    Tiny_BindFunction(state, sigbuf, primitive ? CreatePrimitiveArray : CreateArray);
-
-    snprintf(sigbuf, sizeof(sigbuf), "%s_clear(%s): void", asName, asName);
-    Tiny_BindFunction(state, sigbuf, Lib_ArrayClear);
-
-    snprintf(sigbuf, sizeof(sigbuf), "%s_resize(%s, int): void", asName, asName);
-    Tiny_BindFunction(state, sigbuf, Lib_ArrayResize);
-
-    snprintf(sigbuf, sizeof(sigbuf), "%s_resize_fill(%s, int, %s): void", asName, asName, args[0]);
-    Tiny_BindFunction(state, sigbuf, Lib_ArrayResizeFill);
-
-    snprintf(sigbuf, sizeof(sigbuf), "%s_get(%s, int): %s", asName, asName, args[0]);
-    Tiny_BindFunction(state, sigbuf, Lib_ArrayGet);
-
-    // Conform to the array index syntax
-    snprintf(sigbuf, sizeof(sigbuf), "%s_get_index(%s, int): %s", asName, asName, args[0]);
-    Tiny_BindFunction(state, sigbuf, Lib_ArrayGet);
-
-    snprintf(sigbuf, sizeof(sigbuf), "%s_set(%s, int, %s): void", asName, asName, args[0]);
-    Tiny_BindFunction(state, sigbuf, Lib_ArraySet);
-
-    // Conform to the array index syntax
-    snprintf(sigbuf, sizeof(sigbuf), "%s_set_index(%s, int, %s): void", asName, asName, args[0]);
-    Tiny_BindFunction(state, sigbuf, Lib_ArraySet);
-
-    snprintf(sigbuf, sizeof(sigbuf), "%s_len(%s): int", asName, asName);
-    Tiny_BindFunction(state, sigbuf, Lib_ArrayLen);
-
-    snprintf(sigbuf, sizeof(sigbuf), "%s_push(%s, %s): void", asName, asName, args[0]);
-    Tiny_BindFunction(state, sigbuf, Lib_ArrayPush);
-
-    snprintf(sigbuf, sizeof(sigbuf), "%s_pop(%s): %s", asName, asName, args[0]);
-    Tiny_BindFunction(state, sigbuf, Lib_ArrayPop);
-
-    snprintf(sigbuf, sizeof(sigbuf), "%s_shift(%s): %s", asName, asName, args[0]);
-    Tiny_BindFunction(state, sigbuf, Lib_ArrayShift);
-
-    snprintf(sigbuf, sizeof(sigbuf), "%s_remove(%s, int): void", asName, asName);
-    Tiny_BindFunction(state, sigbuf, Lib_ArrayRemove);
-
-    snprintf(sigbuf, sizeof(sigbuf), "%s_insert(%s, int, %s): void", asName, asName, args[0]);
-    Tiny_BindFunction(state, sigbuf, Lib_ArrayInsert);
-
-    if (elemType->type == TINY_SYM_TAG_INT) {
-        // TODO(Apaar): Add functions to sort other types
-        snprintf(sigbuf, sizeof(sigbuf), "%s_sort(%s): void", asName, asName);
-        Tiny_BindFunction(state, sigbuf, Lib_ArraySortInt);
+    if (!BindArrayType(state, asName, elemType)) {
+        return (Tiny_MacroResult){
+            .type = TINY_MACRO_ERROR,
+            .error.msg = "A function with the same name as one of the array's already exists",
+        };
     }
 
     return (Tiny_MacroResult){.type = TINY_MACRO_SUCCESS};
@@ -1018,8 +1037,12 @@ void Tiny_BindStandardArray(Tiny_State *state) {
 }
 
 void Tiny_BindStandardDict(Tiny_State *state) {
-    Tiny_RegisterType(state, "array_any");
-    Tiny_RegisterType(state, "array_str");
+    if (!Tiny_FindTypeSymbol(state, "array_any")) {
+        BindArrayType(state, "array_any", Tiny_FindTypeSymbol(state, "any"));
+    }
+    if (!Tiny_FindTypeSymbol(state, "array_str")) {
+        BindArrayType(state, "array_str", Tiny_FindTypeSymbol(state, "str"));
+    }
     Tiny_RegisterType(state, "dict");
 
     Tiny_BindFunction(state, "dict(...): dict", CreateDict);
-- 
2.43.0


From 40f8678a12081728d35a27fba95070e497d196a4 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:32 +0000
Subject: [PATCH 40/61] fix: int() keeps all 64 bits of the converted float

---
 tiny/src/tiny.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tiny/src/tiny.c b/tiny/src/tiny.c
index 9f6facd..5252e84 100644
--- a/tiny/src/tiny.c
+++ b/tiny/src/tiny.c
@@ -453,7 +453,7 @@ Tiny_Value Tiny_NewStringCopyNullTerminated(Tiny_StateThread *thread, const char
 static void Symbol_destroy(Tiny_Symbol *sym, Tiny_Context *ctx);
 
 static Tiny_Value Lib_ToInt(Tiny_StateThread *thread, const Tiny_Value *args, int count) {
-    return Tiny_NewInt((int)Tiny_ToFloat(args[0]));
+    return Tiny_NewInt((Tiny_Int)Tiny_ToFloat(args[0]));
 }
 
 static Tiny_Value Lib_ToFloat(Tiny_StateThread *thread, const Tiny_Value *args, int count) {
-- 
2.43.0


From 47fffe914f89eaa9a6dce8fc47a6378468fb2f79 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:00 +0000
Subject: [PATCH 41/61] fix: ArrayResize wrote past the end when growing a
 non-empty array

---
 tiny/src/array.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tiny/src/array.c b/tiny/src/array.c
index d1916c4..ca1301a 100644
--- a/tiny/src/array.c
+++ b/tiny/src/array.c
@@ -35,7 +35,7 @@ void ArrayResize(Array *array, int newLen, Tiny_Value newValue) {
         Tiny_Value *newValues = sb_add(&array->ctx, array->data, newLen - len);
 
         for (int i = len; i < newLen; ++i) {
-            newValues[i] = newValue;
+            newValues[i - len] = newValue;
         }
     } else if (newLen < len) {
         stb__sbn(array->data) = newLen;
-- 
2.43.0


From ab23f82ef93a04423ef1e5032d73d5405d67dd83 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:42 +0000
Subject: [PATCH 42/61] fix: 'new' took the text of any token, or freed memory,
 as the struct name

---
 tiny/src/tiny.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tiny/src/tiny.c b/tiny/src/tiny.c
index 5252e84..a12f6e6 100644
--- a/tiny/src/tiny.c
+++ b/tiny/src/tiny.c
@@ -2000,7 +2000,7 @@ static Tiny_Expr *ParseValue(Tiny_State *state) {
         case TINY_TOK_NEW: {
             Tiny_Expr *exp = Expr_create(TINY_EXP_CONSTRUCTOR, state);
 
-            GetNextToken(state);
+            GetExpectTokenSL(state, TINY_TOK_IDENT, "Expected identifier after 'new'.");
 
             Tiny_Symbol *tag = DeclareStruct(state, state->l.lexeme, true);
 
-- 
2.43.0


From f4816702ed1943dbed26cae5e25e90cfa191e4f5 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:16 +0000
Subject: [PATCH 43/61] fix: the lexeme of an unterminated string had no end,
 error messages printed past it

---
 tiny/src/lexer.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tiny/src/lexer.c b/tiny/src/lexer.c
index cafb5fa..c7883e3 100644
--- a/tiny/src/lexer.c
+++ b/tiny/src/lexer.c
@@ -269,6 +269,7 @@ static Tiny_TokenKind GetToken(Tiny_Lexer *l) {
 
         while (l->last != '"') {
             if (l->last == 0) {
+                sb_push(&l->ctx, l->lexeme, 0);
                 l->errorMsg = "Expected \" to close previous \".";
                 return TINY_TOK_LEXER_ERROR;
             }
-- 
2.43.0


From e309429930a582ffb49c82d934682fd5abcababb Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:46 +0000
Subject: [PATCH 44/61] fix: positions pointed behind the token, so a mistake
 at the end of a line was reported on the next one

---
 tiny/include/lexer.h |  3 +++
 tiny/src/lexer.c     |  4 ++++
 tiny/src/tiny.c      | 18 +++++++++---------
 3 files changed, 16 insertions(+), 9 deletions(-)

diff --git a/tiny/include/lexer.h b/tiny/include/lexer.h
index ae10e84..d367b21 100644
--- a/tiny/include/lexer.h
+++ b/tiny/include/lexer.h
@@ -15,6 +15,9 @@ typedef struct {
     int lineNumber;
     Tiny_TokenPos pos;
 
+    // Where the last token starts
+    Tiny_TokenPos tokPos;
+
     int last;
     char *lexeme;  // array
 
diff --git a/tiny/src/lexer.c b/tiny/src/lexer.c
index c7883e3..a8b92c9 100644
--- a/tiny/src/lexer.c
+++ b/tiny/src/lexer.c
@@ -34,6 +34,7 @@ void Tiny_InitLexer(Tiny_Lexer *l, const char *fileName, const char *src, Tiny_C
 
     l->lineNumber = 1;
     l->pos = 0;
+    l->tokPos = 0;
 
     l->last = ' ';
     l->lexeme = NULL;
@@ -47,6 +48,9 @@ static Tiny_TokenKind GetToken(Tiny_Lexer *l) {
         l->last = GetChar(l);
     }
 
+    // The next character has already been read, unless the source has ended
+    l->tokPos = l->last ? l->pos - 1 : l->pos;
+
     if (l->last == 0) {
         return TINY_TOK_EOF;
     }
diff --git a/tiny/src/tiny.c b/tiny/src/tiny.c
index a12f6e6..8a02d1c 100644
--- a/tiny/src/tiny.c
+++ b/tiny/src/tiny.c
@@ -45,10 +45,10 @@ static void ReportErrorL(Tiny_State *state, Tiny_Lexer *l, const char *s, ...) {
     va_start(args, s);
 
     state->compileErrorResult.type = TINY_COMPILE_ERROR;
-    state->compileErrorResult.error.pos = l->pos;
+    state->compileErrorResult.error.pos = l->tokPos;
 
     Tiny_FormatErrorV(state->compileErrorResult.error.msg,
-                      sizeof(state->compileErrorResult.error.msg), l->fileName, l->src, l->pos, s,
+                      sizeof(state->compileErrorResult.error.msg), l->fileName, l->src, l->tokPos, s,
                       args);
 
     va_end(args);
@@ -61,11 +61,11 @@ static void ReportErrorSL(Tiny_State *state, const char *s, ...) {
     va_start(args, s);
 
     state->compileErrorResult.type = TINY_COMPILE_ERROR;
-    state->compileErrorResult.error.pos = state->l.pos;
+    state->compileErrorResult.error.pos = state->l.tokPos;
 
     Tiny_FormatErrorV(state->compileErrorResult.error.msg,
                       sizeof(state->compileErrorResult.error.msg), state->l.fileName, state->l.src,
-                      state->l.pos, s, args);
+                      state->l.tokPos, s, args);
 
     va_end(args);
 
@@ -760,7 +760,7 @@ static Tiny_Symbol *Symbol_create(Tiny_SymbolType type, const char *name, Tiny_S
 
     sym->name = CloneString(&state->ctx, name);
     sym->type = type;
-    sym->pos = state->l.pos;
+    sym->pos = state->l.tokPos;
 
     return sym;
 }
@@ -1495,7 +1495,7 @@ static Tiny_Expr *Expr_create(Tiny_ExprType type, Tiny_State *state) {
     Tiny_Expr *exp = Tiny_ArenaAlloc(&state->parserArena, sizeof(Tiny_Expr), sizeof(void *));
 
     exp->next = NULL;
-    exp->pos = state->l.pos;
+    exp->pos = state->l.tokPos;
     exp->lineNumber = state->l.lineNumber;
     exp->type = type;
 
@@ -1820,7 +1820,7 @@ static Tiny_Symbol *ParseStruct(Tiny_State *state) {
                       state->currFunc->name);
     }
 
-    Tiny_TokenPos pos = state->l.pos;
+    Tiny_TokenPos pos = state->l.tokPos;
 
     GetExpectTokenSL(state, TINY_TOK_IDENT, "Expected identifier after 'struct'.");
 
@@ -1925,7 +1925,7 @@ static Tiny_Expr *ParseValue(Tiny_State *state) {
         } break;
 
         case TINY_TOK_IDENT: {
-            Tiny_TokenPos pos = state->l.pos;
+            Tiny_TokenPos pos = state->l.tokPos;
             int lineNumber = state->l.lineNumber;
 
             Tiny_StringNode *ident = CreateExprStringNode(state, state->l.lexeme);
@@ -2422,7 +2422,7 @@ static Tiny_Expr *ParseStatement(Tiny_State *state) {
             int op = state->l.lastTok;
 
             int lineNumber = state->l.lineNumber;
-            Tiny_TokenPos pos = state->l.pos;
+            Tiny_TokenPos pos = state->l.tokPos;
 
             if (state->l.lastTok == TINY_TOK_DECLARE || state->l.lastTok == TINY_TOK_COLON) {
                 if (lhs->type != TINY_EXP_ID) {
-- 
2.43.0


From 7a91d46d468141d7bb8abcdf4b56efa84cf94aa0 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:35 +0000
Subject: [PATCH 45/61] fix: binary expressions, parentheses and constants
 reported errors at the token behind them

---
 tiny/src/tiny.c | 26 ++++++++++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/tiny/src/tiny.c b/tiny/src/tiny.c
index 8a02d1c..2f525a8 100644
--- a/tiny/src/tiny.c
+++ b/tiny/src/tiny.c
@@ -1986,6 +1986,9 @@ static Tiny_Expr *ParseValue(Tiny_State *state) {
         } break;
 
         case TINY_TOK_OPENPAREN: {
+            int lineNumber = state->l.lineNumber;
+            Tiny_TokenPos pos = state->l.tokPos;
+
             GetNextToken(state);
             Tiny_Expr *inner = ParseExpr(state);
 
@@ -1993,6 +1996,9 @@ static Tiny_Expr *ParseValue(Tiny_State *state) {
             GetNextToken(state);
 
             Tiny_Expr *exp = Expr_create(TINY_EXP_PAREN, state);
+            exp->lineNumber = lineNumber;
+            exp->pos = pos;
+
             exp->paren = inner;
             return exp;
         } break;
@@ -2232,6 +2238,9 @@ static Tiny_Expr *ParseBinRhs(Tiny_State *state, int exprPrec, Tiny_Expr *lhs) {
 
         int binOp = state->l.lastTok;
 
+        int lineNumber = state->l.lineNumber;
+        Tiny_TokenPos pos = state->l.tokPos;
+
         GetNextToken(state);
 
         Tiny_Expr *rhs = ParseFactor(state);
@@ -2241,6 +2250,9 @@ static Tiny_Expr *ParseBinRhs(Tiny_State *state, int exprPrec, Tiny_Expr *lhs) {
 
         Tiny_Expr *newLhs = Expr_create(TINY_EXP_BINARY, state);
 
+        newLhs->lineNumber = lineNumber;
+        newLhs->pos = pos;
+
         newLhs->binary.lhs = lhs;
         newLhs->binary.rhs = rhs;
         newLhs->binary.op = binOp;
@@ -2459,6 +2471,16 @@ static Tiny_Expr *ParseStatement(Tiny_State *state) {
                     ReportErrorSL(state, "Left hand side of declaration must be identifier.");
                 }
 
+                Tiny_Symbol *prev = ReferenceVariable(state, lhs->id.name->value);
+
+                if (prev && (prev->type == TINY_SYM_CONST || prev->type == TINY_SYM_LOCAL ||
+                             prev->type == TINY_SYM_GLOBAL)) {
+                    ReportErrorE(state, lhs,
+                                 "Attempted to define constant with the same name '%s' as "
+                                 "another value.\n",
+                                 lhs->id.name->value);
+                }
+
                 if (rhs->type == TINY_EXP_BOOL) {
                     DeclareConst(state, lhs->id.name->value, GetPrimTag(TINY_SYM_TAG_BOOL))
                         ->constant.bValue = rhs->boolean;
@@ -2475,8 +2497,8 @@ static Tiny_Expr *ParseStatement(Tiny_State *state) {
                     DeclareConst(state, lhs->id.name->value, GetPrimTag(TINY_SYM_TAG_STR))
                         ->constant.sIndex = rhs->sIndex;
                 } else {
-                    ReportErrorSL(state, "Expected number or string to be bound to constant '%s'.",
-                                  lhs->id.name->value);
+                    ReportErrorE(state, lhs, "Expected number or string to be bound to constant '%s'.",
+                                 lhs->id.name->value);
                 }
             }
 
-- 
2.43.0


From 9e22bf3c7896ed1a11aa1d4db6f473fde57eef82 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:37 +0000
Subject: [PATCH 46/61] fix: long source lines pushed the error out of the
 compile error message

---
 tiny/src/util.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/tiny/src/util.c b/tiny/src/util.c
index b19ef6e..7a0c8ba 100644
--- a/tiny/src/util.c
+++ b/tiny/src/util.c
@@ -66,6 +66,9 @@ void Tiny_FormatErrorV(char *buf, size_t bufsize, const char *fileName, const ch
         // Print nearest 3 lines
         while (*src) {
             if (abs(lineNumber - curLine) <= 3) {
+                // Long lines are cut off so that there's always room for the error itself
+                size_t lineEnd = used + bufsize / 16;
+
                 if (curLine == lineNumber) {
                     APPEND("%d ->\t", curLine);
                 } else {
@@ -73,7 +76,9 @@ void Tiny_FormatErrorV(char *buf, size_t bufsize, const char *fileName, const ch
                 }
 
                 while (*src && *src != '\n') {
-                    APPEND("%c", *src);
+                    if (used < lineEnd) {
+                        APPEND("%c", *src);
+                    }
                     src += 1;
                 }
 
-- 
2.43.0


From 1cfaf0a2ae16042ec062d7a51a67b739b82ac315 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:27 +0000
Subject: [PATCH 47/61] fix: arena alignments above 16 bytes were not honoured

---
 tiny/src/arena.c | 32 ++++++++++++++++++++++----------
 1 file changed, 22 insertions(+), 10 deletions(-)

diff --git a/tiny/src/arena.c b/tiny/src/arena.c
index b2f7221..e30740e 100644
--- a/tiny/src/arena.c
+++ b/tiny/src/arena.c
@@ -1,6 +1,7 @@
 #include "arena.h"
 
 #include <assert.h>
+#include <stdint.h>
 
 #include "util.h"
 
@@ -34,6 +35,19 @@ static size_t NextMultipleOf(size_t value, size_t factor) {
     return (value & ~(factor - 1)) + factor;
 }
 
+// Returns the offset into the page at which the next allocation with the given alignment goes.
+static size_t NextOffset(const Tiny_ArenaPage* page, size_t align) {
+    // It's the address itself that has to be aligned, not just the offset into the page
+    uintptr_t base = (uintptr_t)page->data;
+    uintptr_t next = base + page->used;
+
+    if (align > 1 && next % align != 0) {
+        next = NextMultipleOf(next, align);
+    }
+
+    return next - base;
+}
+
 void Tiny_InitArena(Tiny_Arena* a, Tiny_Context ctx) {
     a->ctx = ctx;
     a->head = NULL;
@@ -41,9 +55,11 @@ void Tiny_InitArena(Tiny_Arena* a, Tiny_Context ctx) {
 
 void* Tiny_ArenaAlloc(Tiny_Arena* a, size_t size, size_t align) {
     if (size > ARENA_PAGE_SIZE) {
-        Tiny_ArenaPage* page = AllocPage(&a->ctx, size);
+        Tiny_ArenaPage* page = AllocPage(&a->ctx, size + align - 1);
+
+        void* data = (char*)page->data + NextOffset(page, align);
 
-        page->used = size;
+        page->used = page->cap;
 
         if (a->head) {
             page->next = a->head->next;
@@ -52,21 +68,17 @@ void* Tiny_ArenaAlloc(Tiny_Arena* a, size_t size, size_t align) {
             a->head = page;
         }
 
-        return page->data;
+        return data;
     }
 
-    if (!a->head || NextMultipleOf(a->head->used, align) + size > a->head->cap) {
-        Tiny_ArenaPage* page = AllocPage(&a->ctx, ARENA_PAGE_SIZE);
-
-        page->used = size;
+    if (!a->head || NextOffset(a->head, align) + size > a->head->cap) {
+        Tiny_ArenaPage* page = AllocPage(&a->ctx, ARENA_PAGE_SIZE + align - 1);
 
         page->next = a->head;
         a->head = page;
-
-        return page->data;
     }
 
-    a->head->used = NextMultipleOf(a->head->used, align) + size;
+    a->head->used = NextOffset(a->head, align) + size;
 
     void* data = (char*)a->head->data + (a->head->used - size);
 
-- 
2.43.0


From 068d891887bd2e89525a41f4857195fa5a6b8a7a Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:28 +0000
Subject: [PATCH 48/61] fix: Tiny_PosToFriendlyPos read behind the given length
 of the text

---
 tiny/src/pos.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tiny/src/pos.c b/tiny/src/pos.c
index fbfad1d..eca89f8 100644
--- a/tiny/src/pos.c
+++ b/tiny/src/pos.c
@@ -13,7 +13,7 @@ Tiny_FriendlyPos Tiny_PosToFriendlyPos(Tiny_Pos pos, const char* src, uint32_t s
 
     for (;;) {
         const char* lineStart = src;
-        const char* newLine = strchr(lineStart, '\n');
+        const char* newLine = memchr(lineStart, '\n', srcLen - (lineStart - start));
 
         // We have crossed the pos
         if (!newLine || newLine - start >= pos.index) {
-- 
2.43.0


From 1b4ae02e32f71b60b2384703882af6f25f4ac2bb Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:55 +0000
Subject: [PATCH 49/61] fix: line breaks in char literals and behind a
 backslash were not counted

---
 tiny/src/lexer.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/tiny/src/lexer.c b/tiny/src/lexer.c
index a8b92c9..16f2285 100644
--- a/tiny/src/lexer.c
+++ b/tiny/src/lexer.c
@@ -243,6 +243,9 @@ static Tiny_TokenKind GetToken(Tiny_Lexer *l) {
                 case 'b':           \
                     l->last = '\b'; \
                     break;          \
+                case '\n':          \
+                    l->lineNumber++; \
+                    break;          \
             }                       \
         }                           \
     } while (0)
@@ -250,6 +253,8 @@ static Tiny_TokenKind GetToken(Tiny_Lexer *l) {
     if (l->last == '\'') {
         l->last = GetChar(l);
 
+        if (l->last == '\n') l->lineNumber++;
+
         CHECK_ESCAPE();
 
         l->iValue = l->last;
-- 
2.43.0


From 2567da3415afe421acb8ca15dc705f8b171d0e0d Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:25 +0000
Subject: [PATCH 50/61] fix: functions with different signatures could share
 one delegate type

---
 tiny/src/std.c | 44 +++++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 43 insertions(+), 1 deletion(-)

diff --git a/tiny/src/std.c b/tiny/src/std.c
index febcd3b..432da9a 100644
--- a/tiny/src/std.c
+++ b/tiny/src/std.c
@@ -1155,6 +1155,36 @@ static void AppendDelegateTagName(Tiny_State *state, char **buf, const Tiny_Symb
                  GetNonNullableTag(tag)->name);
 }
 
+// Different functions can lead to the same delegate type name (e.g. if there's a struct called
+// "int_int") and so can other types
+static bool IsDelegateTypeForFunction(Tiny_State *state, const Tiny_Symbol *typeSym,
+                                      const Tiny_Symbol *func) {
+    char *callName = NULL;
+    AppendFormat(state, &callName, "%s_call", typeSym->name);
+
+    const Tiny_Symbol *callFunc = Tiny_FindFuncSymbol(state, callName);
+    sb_free(&state->ctx, callName);
+
+    if (!callFunc || callFunc->type != TINY_SYM_FUNCTION ||
+        callFunc->func.returnTag != func->func.returnTag) {
+        return false;
+    }
+
+    // The first argument is the delegate
+    int argc = (int)Tiny_SymbolArrayCount(func->func.args);
+
+    if ((int)Tiny_SymbolArrayCount(callFunc->func.args) != argc + 1 ||
+        callFunc->func.args[0]->var.tag != typeSym) {
+        return false;
+    }
+
+    for (int i = 0; i < argc; ++i) {
+        if (callFunc->func.args[i + 1]->var.tag != func->func.args[i]->var.tag) return false;
+    }
+
+    return true;
+}
+
 static TINY_MACRO_FUNCTION(DelegateMacroFunction) {
     if (nargs != 1) {
         return (Tiny_MacroResult){
@@ -1202,8 +1232,20 @@ static TINY_MACRO_FUNCTION(DelegateMacroFunction) {
     AppendDelegateTagName(state, &typeName, returnTag);
 
     char *code = NULL;
+    const Tiny_Symbol *typeSym = Tiny_FindTypeSymbol(state, typeName);
+
+    if (typeSym && !IsDelegateTypeForFunction(state, typeSym, func)) {
+        sb_free(&state->ctx, paramsCode);
+        sb_free(&state->ctx, argsCode);
+        sb_free(&state->ctx, typeName);
+
+        return (Tiny_MacroResult){
+            .type = TINY_MACRO_ERROR,
+            .error.msg = "The name of the delegate type is already used by another type",
+        };
+    }
 
-    if (!Tiny_FindTypeSymbol(state, typeName)) {
+    if (!typeSym) {
         Tiny_RegisterType(state, typeName);
 
         AppendFormat(state, &code, "func %s_call(f: %s%s): %s { ", typeName, typeName, argsCode,
-- 
2.43.0


From 8f980a8d86fcf3b0144d95c13a60fd583b5c82e6 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:58 +0000
Subject: [PATCH 51/61] fix: a struct with the name of another type is an error

It was accepted and could not be found under its name.
---
 tiny/src/tiny.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/tiny/src/tiny.c b/tiny/src/tiny.c
index 2f525a8..9b0fc35 100644
--- a/tiny/src/tiny.c
+++ b/tiny/src/tiny.c
@@ -1824,6 +1824,13 @@ static Tiny_Symbol *ParseStruct(Tiny_State *state) {
 
     GetExpectTokenSL(state, TINY_TOK_IDENT, "Expected identifier after 'struct'.");
 
+    Tiny_Symbol *existing = GetTagFromName(state, state->l.lexeme, false);
+
+    if (existing && existing->type != TINY_SYM_TAG_STRUCT) {
+        ReportErrorSL(state, "Attempted to define struct %s, but that is already another type.",
+                      state->l.lexeme);
+    }
+
     Tiny_Symbol *s = DeclareStruct(state, state->l.lexeme, true);
 
     if (s->sstruct.defined) {
-- 
2.43.0


From 568bfa40c3b05ec0391672ab750189b82b5f7654 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:39 +0000
Subject: [PATCH 52/61] fix: many comment lines in a row overflowed the C stack

---
 tiny/src/lexer.c | 30 ++++++++++++++----------------
 1 file changed, 14 insertions(+), 16 deletions(-)

diff --git a/tiny/src/lexer.c b/tiny/src/lexer.c
index 16f2285..329a34e 100644
--- a/tiny/src/lexer.c
+++ b/tiny/src/lexer.c
@@ -43,29 +43,27 @@ void Tiny_InitLexer(Tiny_Lexer *l, const char *fileName, const char *src, Tiny_C
 }
 
 static Tiny_TokenKind GetToken(Tiny_Lexer *l) {
-    while (isspace(l->last)) {
-        if (l->last == '\n') l->lineNumber++;
-        l->last = GetChar(l);
-    }
-
-    // The next character has already been read, unless the source has ended
-    l->tokPos = l->last ? l->pos - 1 : l->pos;
+    // Skip whitespace and comments
+    for (;;) {
+        while (isspace(l->last)) {
+            if (l->last == '\n') l->lineNumber++;
+            l->last = GetChar(l);
+        }
 
-    if (l->last == 0) {
-        return TINY_TOK_EOF;
-    }
+        if (l->last != '/' || Peek(l) != '/') {
+            break;
+        }
 
-    if (l->last == '/' && Peek(l) == '/') {
         while (l->last && l->last != '\n') {
             l->last = GetChar(l);
         }
+    }
 
-        if (l->last) {
-            l->last = GetChar(l);
-            l->lineNumber += 1;
-        }
+    // The next character has already been read, unless the source has ended
+    l->tokPos = l->last ? l->pos - 1 : l->pos;
 
-        return Tiny_GetToken(l);
+    if (l->last == 0) {
+        return TINY_TOK_EOF;
     }
 
     if (l->last == '.' && Peek(l) == '.' && Peek2(l) == '.') {
-- 
2.43.0


From e739716be6e8f7876d6149f73101d7676e7ee0bb Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:46 +0000
Subject: [PATCH 53/61] fix: functions with more than 255 parameters are an
 error

---
 tiny/src/tiny.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/tiny/src/tiny.c b/tiny/src/tiny.c
index 9b0fc35..618f40c 100644
--- a/tiny/src/tiny.c
+++ b/tiny/src/tiny.c
@@ -1781,6 +1781,11 @@ static Tiny_Expr *ParseFunc(Tiny_State *state) {
         TINY_LL_APPEND(argsHead, argsTail, arg);
         ++nargs;
 
+        // Frames store the number of arguments in a byte
+        if (nargs > UCHAR_MAX) {
+            ReportErrorSL(state, "Exceeded maximum number of parameters (%d).", UCHAR_MAX);
+        }
+
         if (state->l.lastTok != TINY_TOK_CLOSEPAREN && state->l.lastTok != TINY_TOK_COMMA) {
             ReportErrorSL(state,
                           "Expected ')' or ',' after parameter name in function "
-- 
2.43.0


From 3b5a66786c94ab3dc5dca82f682e2eee3798ae3d Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:45 +0000
Subject: [PATCH 54/61] fix: globals declared after a thread was first used had
 no room in it

---
 tiny/include/tiny.h |  1 +
 tiny/src/tiny.c     | 31 ++++++++++++++++++++++---------
 2 files changed, 23 insertions(+), 9 deletions(-)

diff --git a/tiny/include/tiny.h b/tiny/include/tiny.h
index 6af6ae9..9c50eaa 100644
--- a/tiny/include/tiny.h
+++ b/tiny/include/tiny.h
@@ -156,6 +156,7 @@ typedef struct Tiny_StateThread {
 
     // Global vars are owned by each thread
     Tiny_Value *globalVars;
+    int numGlobalVars;
 
     int pc, fp, sp;
     Tiny_Value retVal;
diff --git a/tiny/src/tiny.c b/tiny/src/tiny.c
index 618f40c..c011125 100644
--- a/tiny/src/tiny.c
+++ b/tiny/src/tiny.c
@@ -530,6 +530,7 @@ void Tiny_InitThreadWithContext(Tiny_StateThread *thread, const Tiny_State *stat
     thread->maxNumObjects = 8;
 
     thread->globalVars = NULL;
+    thread->numGlobalVars = 0;
 
     thread->pc = -1;
     thread->fp = thread->sp = 0;
@@ -548,12 +549,21 @@ void Tiny_InitThread(Tiny_StateThread *thread, const Tiny_State *state) {
 }
 
 static void AllocGlobals(Tiny_StateThread *thread) {
-    // If the global variables haven't been allocated yet,
-    // do that
-    if (!thread->globalVars) {
-        thread->globalVars =
-            TMalloc(&thread->ctx, sizeof(Tiny_Value) * thread->state->numGlobalVars);
-        memset(thread->globalVars, 0, sizeof(Tiny_Value) * thread->state->numGlobalVars);
+    // If the global variables haven't been allocated yet, or if more were declared by code
+    // compiled since, do that
+    int count = thread->state->numGlobalVars;
+
+    if (!thread->globalVars || thread->numGlobalVars < count) {
+        Tiny_Value *globalVars = TMalloc(&thread->ctx, sizeof(Tiny_Value) * count);
+        memset(globalVars, 0, sizeof(Tiny_Value) * count);
+
+        if (thread->globalVars) {
+            memcpy(globalVars, thread->globalVars, sizeof(Tiny_Value) * thread->numGlobalVars);
+            TFree(&thread->ctx, thread->globalVars);
+        }
+
+        thread->globalVars = globalVars;
+        thread->numGlobalVars = count;
     }
 }
 
@@ -595,14 +605,17 @@ static void DoPush(Tiny_StateThread *thread, Tiny_Value value);
 
 Tiny_Value Tiny_GetGlobal(const Tiny_StateThread *thread, int globalIndex) {
     assert(globalIndex >= 0 && globalIndex < thread->state->numGlobalVars);
-    assert(thread->globalVars);
+
+    // Declared by code which was compiled since the thread was last started
+    if (globalIndex >= thread->numGlobalVars) return Tiny_Null;
 
     return thread->globalVars[globalIndex];
 }
 
 void Tiny_SetGlobal(Tiny_StateThread *thread, int globalIndex, Tiny_Value value) {
     assert(globalIndex >= 0 && globalIndex < thread->state->numGlobalVars);
-    assert(thread->globalVars);
+
+    AllocGlobals(thread);
 
     thread->globalVars[globalIndex] = value;
 }
@@ -676,7 +689,7 @@ static void MarkAll(Tiny_StateThread *thread) {
 
     for (int i = 0; i < thread->sp; ++i) Tiny_ProtectFromGC(thread->stack[i]);
 
-    for (int i = 0; i < thread->state->numGlobalVars; ++i)
+    for (int i = 0; i < thread->numGlobalVars; ++i)
         Tiny_ProtectFromGC(thread->globalVars[i]);
 }
 
-- 
2.43.0


From 8ed50eb4f2467858e26a5cf945f7faba8a659f65 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:54 +0000
Subject: [PATCH 55/61] fix: a failed compile left types it registered in place
 of the structs they were awaited as

---
 tiny/src/tiny.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tiny/src/tiny.c b/tiny/src/tiny.c
index c011125..bcaea98 100644
--- a/tiny/src/tiny.c
+++ b/tiny/src/tiny.c
@@ -4229,6 +4229,8 @@ Tiny_CompileResult Tiny_CompileString(Tiny_State *state, const char *name, const
 
             sb_free(&state->ctx, s->sstruct.fields);
 
+            // It could've been registered as a foreign type instead of being defined
+            s->type = TINY_SYM_TAG_STRUCT;
             s->sstruct.fields = NULL;
             s->sstruct.defined = false;
         }
-- 
2.43.0


From 9eb761f090700f9db5d36b95d823d3329a389d4f Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:10 +0000
Subject: [PATCH 56/61] fix: a variable declared in the unbraced body of an if
 outlived the if

---
 tiny/src/tiny.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/tiny/src/tiny.c b/tiny/src/tiny.c
index bcaea98..5b8e28e 100644
--- a/tiny/src/tiny.c
+++ b/tiny/src/tiny.c
@@ -1705,11 +1705,21 @@ static Tiny_Expr *ParseIf(Tiny_State *state) {
     GetNextToken(state);
 
     exp->ifx.cond = ParseExpr(state);
+
+    OpenScope(state);
+
     exp->ifx.body = ParseStatement(state);
 
+    CloseScope(state);
+
     if (state->l.lastTok == TINY_TOK_ELSE) {
         GetNextToken(state);
+
+        OpenScope(state);
+
         exp->ifx.alt = ParseStatement(state);
+
+        CloseScope(state);
     } else
         exp->ifx.alt = NULL;
 
-- 
2.43.0


From c1eeea25c6c5f4eb31e77d750e92ee05cd3b4c1a Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:58:27 +0000
Subject: [PATCH 57/61] fix: fread with a negative count wrote past its buffer

---
 tiny/src/std.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tiny/src/std.c b/tiny/src/std.c
index 432da9a..3ff7163 100644
--- a/tiny/src/std.c
+++ b/tiny/src/std.c
@@ -106,6 +106,9 @@ static Tiny_Value Lib_Fread(Tiny_StateThread *thread, const Tiny_Value *args, in
     FILE *file = Tiny_ToAddr(args[0]);
     int num = (int)Tiny_ToNumber(args[1]);
 
+    // A negative count would be taken for a huge one
+    if (num < 0) num = 0;
+
     // + 1 for null-terminator
     char *str = Tiny_AllocUsingContext(thread->ctx, NULL, num + 1);
 
-- 
2.43.0


From f34a32df44170a550207789f62ab17b04cb8d629 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:00:56 +0000
Subject: [PATCH 58/61] fix: owned strings leaked when they were allocated
 directly behind their object

---
 tiny/include/detail.h |  3 +++
 tiny/src/tiny.c       | 15 ++++++---------
 2 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/tiny/include/detail.h b/tiny/include/detail.h
index d4a7ac3..a58956d 100644
--- a/tiny/include/detail.h
+++ b/tiny/include/detail.h
@@ -13,6 +13,9 @@ typedef uint8_t Word;
 typedef struct Tiny_Object {
     bool marked;
 
+    // For strings, whether `string.ptr` is a part of this allocation
+    bool embedded;
+
     Tiny_ValueType type;
     struct Tiny_Object *next;
 
diff --git a/tiny/src/tiny.c b/tiny/src/tiny.c
index 5b8e28e..8e360b9 100644
--- a/tiny/src/tiny.c
+++ b/tiny/src/tiny.c
@@ -99,15 +99,10 @@ static Tiny_StringNode *CreateExprStringNode(Tiny_State *state, const char *str)
 
 static void DeleteObject(Tiny_Context *ctx, Tiny_Object *obj) {
     if (obj->type == TINY_VAL_STRING) {
-        char *internalStr = (char *)obj + sizeof(Tiny_Object);
-
-        if (obj->string.ptr == internalStr) {
-            // FIXME(Apaar): Is it possible for there to be a string which just happens to be
-            // allocated after the object pointer?
-
-            // If the string pointer is directly after the object then it is part of the object
-            // allocation and does not need to be freed separately
-        } else {
+        // An embedded string is part of the object allocation and does not need to be freed
+        // separately. Its address can't tell, since any other string could've been allocated
+        // directly after the object as well.
+        if (!obj->embedded) {
             TFree(ctx, obj->string.ptr);
         }
     } else if (obj->type == TINY_VAL_NATIVE) {
@@ -313,6 +308,7 @@ static Tiny_Object *NewStringObjectEmbedString(Tiny_StateThread *thread, const c
     thread->gcHead = obj;
     obj->marked = 0;
 
+    obj->embedded = true;
     obj->string.len = len;
     obj->string.ptr = (char *)obj + sizeof(Tiny_Object);
     memcpy(obj->string.ptr, str, len);
@@ -414,6 +410,7 @@ Tiny_Value Tiny_NewString(Tiny_StateThread *thread, char *str, size_t len) {
 
     Tiny_Object *obj = NewObject(thread, TINY_VAL_STRING);
 
+    obj->embedded = false;
     obj->string.len = len;
     obj->string.ptr = str;
 
-- 
2.43.0


From d3f3cb93a49cebadc2460a8e43ec7763e28f02e2 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:20:29 +0000
Subject: [PATCH 59/61] fix: write_file reported success for data that could
 not be written

---
 tiny/src/std.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/tiny/src/std.c b/tiny/src/std.c
index 3ff7163..ac81b21 100644
--- a/tiny/src/std.c
+++ b/tiny/src/std.c
@@ -192,10 +192,14 @@ static Tiny_Value Lib_WriteFile(Tiny_StateThread *thread, const Tiny_Value *args
 
     const char *s = Tiny_ToString(args[1]);
 
-    fwrite(s, 1, Tiny_StringLen(args[1]), file);
-    fclose(file);
+    size_t len = Tiny_StringLen(args[1]);
+
+    bool written = fwrite(s, 1, len, file) == len;
+
+    // The data may only be written out (and fail to be) now
+    if (fclose(file) != 0) written = false;
 
-    return Tiny_NewBool(true);
+    return Tiny_NewBool(written);
 }
 
 static void ArrayFree(Tiny_Context *ctx, void *ptr) {
-- 
2.43.0


From 90e93c95ae47e6964c31e63ec8c9f45942122e75 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:20:29 +0000
Subject: [PATCH 60/61] fix: positions, sizes and counts of 2 GB and more were
 cut off in files

---
 tiny/src/std.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/tiny/src/std.c b/tiny/src/std.c
index ac81b21..94630fc 100644
--- a/tiny/src/std.c
+++ b/tiny/src/std.c
@@ -99,7 +99,7 @@ static Tiny_Value Lib_Fsize(Tiny_StateThread *thread, const Tiny_Value *args, in
     long size = ftell(file);
     rewind(file);
 
-    return Tiny_NewInt((int)size);
+    return Tiny_NewInt(size);
 }
 
 static Tiny_Value Lib_Fread(Tiny_StateThread *thread, const Tiny_Value *args, int count) {
@@ -126,7 +126,7 @@ static Tiny_Value Lib_Fread(Tiny_StateThread *thread, const Tiny_Value *args, in
 
 static Tiny_Value Lib_Fseek(Tiny_StateThread *thread, const Tiny_Value *args, int count) {
     FILE *file = Tiny_ToAddr(args[0]);
-    int pos = (int)Tiny_ToNumber(args[1]);
+    long pos = (long)Tiny_ToInt(args[1]);
 
     fseek(file, pos, SEEK_SET);
 
@@ -136,14 +136,14 @@ static Tiny_Value Lib_Fseek(Tiny_StateThread *thread, const Tiny_Value *args, in
 static Tiny_Value Lib_Fwrite(Tiny_StateThread *thread, const Tiny_Value *args, int count) {
     FILE *file = Tiny_ToAddr(args[0]);
     const char *str = Tiny_ToString(args[1]);
-    int len = (int)Tiny_StringLen(args[1]);
-    int num = count == 3 ? (int)Tiny_ToNumber(args[2]) : len;
+    double len = (double)Tiny_StringLen(args[1]);
+    double num = count == 3 ? Tiny_ToNumber(args[2]) : len;
 
     // Don't write memory past the end of the string
     if (num > len) num = len;
-    if (num < 0) num = 0;
+    if (!(num > 0)) num = 0;
 
-    return Tiny_NewInt(fwrite(str, 1, num, file));
+    return Tiny_NewInt(fwrite(str, 1, (size_t)num, file));
 }
 
 static Tiny_Value Lib_Fclose(Tiny_StateThread *thread, const Tiny_Value *args, int count) {
-- 
2.43.0


From f644ae2a2bf644ab73b00abc8e36a83cbcfc028d Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:31:45 +0000
Subject: [PATCH 61/61] fix: tell nullable types with names over 255 characters
 apart

---
 tiny/src/tiny.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/tiny/src/tiny.c b/tiny/src/tiny.c
index 8e360b9..d0752fd 100644
--- a/tiny/src/tiny.c
+++ b/tiny/src/tiny.c
@@ -1634,12 +1634,15 @@ static Tiny_Symbol *GetOrCreateNullable(Tiny_State *state, Tiny_Symbol *inner) {
         }
     }
 
-    // FIXME(Apaar): Allow names longer than 256 chars
-    char nameBuf[256] = {0};
+    // Types are told apart by their names, so this can't be cut off
+    size_t nameSize = strlen(GetTagName(inner)) + 2;
+    char *name = TMalloc(&state->ctx, nameSize);
 
-    snprintf(nameBuf, sizeof(nameBuf), "%s?", GetTagName(inner));
+    snprintf(name, nameSize, "%s?", GetTagName(inner));
 
-    Tiny_Symbol *sym = Symbol_create(TINY_SYM_TAG_NULLABLE, nameBuf, state);
+    Tiny_Symbol *sym = Symbol_create(TINY_SYM_TAG_NULLABLE, name, state);
+
+    TFree(&state->ctx, name);
 
     sym->nullableTag = inner;
 
-- 
2.43.0

