From 7074d0439d02a0ef40f84613cfafc137950dbc93 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:37 +0000
Subject: [PATCH 01/56] fix: don't overwrite a return statement's expression
 with its value

Executing a return statement stored the evaluated result in the syntax
tree, so every later call of the function returned the first call's value.
---
 src/evaluate.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/evaluate.c b/src/evaluate.c
index 0860e82..4d3068b 100644
--- a/src/evaluate.c
+++ b/src/evaluate.c
@@ -2068,9 +2068,13 @@ static tree eval_if(tree t, int depth)
 
 static tree eval_return(tree t, int depth)
 {
-    tRET_EXP(t) = __evaluate_1(tRET_EXP(t), depth + 1);
+    /* Don't write the result back into the AST, it must be evaluated afresh
+     * each time this statement is executed. */
+    tree ret = tree_make(T_RETURN);
 
-    return t;
+    tRET_EXP(ret) = __evaluate_1(tRET_EXP(t), depth + 1);
+
+    return ret;
 }
 
 /* Build a simplified decl chain, ensuring all decls with multiple
-- 
2.43.0


From 3b0983cef82173b76bf240e5935327cbbae5cc88 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:14 +0000
Subject: [PATCH 02/56] fix: honour return and break in unbraced and nested
 statements

A lone statement's return was ignored, a break nested in an if only left
the if, and a broken-out-of loop left its scope on the context stack.
---
 src/c.lang     |  1 -
 src/evaluate.c | 95 +++++++++++++++++++++++++++++---------------------
 2 files changed, 55 insertions(+), 41 deletions(-)

diff --git a/src/c.lang b/src/c.lang
index 82aebba..ad1a96f 100644
--- a/src/c.lang
+++ b/src/c.lang
@@ -232,7 +232,6 @@
 (deftype E_CTX "Evaluator Context" "tECTX"
          ("ID_MAP" "STRUCT_ID_MAP" "UNION_ID_MAP" "PARENT_CTX" "ALLOC_CHAIN" "NAME" "RETVAL"
           ("JMP_BUF" jmp_buf)
-          ("SHOULD_BREAK" flag)
           ("IS_FN_CALL" flag)
           ("IS_STATIC" flag)))
 
diff --git a/src/evaluate.c b/src/evaluate.c
index 4d3068b..962f128 100644
--- a/src/evaluate.c
+++ b/src/evaluate.c
@@ -42,7 +42,7 @@ const tree get_include_chain(void)
 static const char *current_filename;
 
 static tree __evaluate_1(tree t, int depth);
-static void __evaluate(tree t, int depth);
+static tree __evaluate(tree t, int depth);
 
 enum identifier_search_scope
 {
@@ -1695,8 +1695,6 @@ static tree eval_gteq(tree t, int depth)
 
 static tree eval_break(tree t, int depth)
 {
-    tECTX_SHOULD_BREAK(cur_ctx) = true;
-
     return t;
 }
 
@@ -1982,8 +1980,8 @@ static tree eval_loop_for(tree t, int depth)
 
     do {
 
-        tree cond_result = __evaluate_1(tFLOOP_COND(t),
-                                        depth + 1);
+        tree result, cond_result = __evaluate_1(tFLOOP_COND(t),
+                                                depth + 1);
 
         cond_result = convert_to_comparable_type(cond_result, depth + 1);
 
@@ -1994,13 +1992,12 @@ static tree eval_loop_for(tree t, int depth)
             break;
 
         push_ctx("For Loop");
-        __evaluate(tFLOOP_STMTS(t), depth + 1);
+        result = __evaluate(tFLOOP_STMTS(t), depth + 1);
+        pop_ctx();
 
-        if (tECTX_SHOULD_BREAK(cur_ctx))
+        if (is_T_BREAK(result))
             return NULL;
 
-        pop_ctx();
-
         __evaluate_1(tFLOOP_AFTER(t), depth + 1);
 
     } while (1);
@@ -2012,8 +2009,8 @@ static tree eval_loop_while(tree t, int depth)
 {
     do {
 
-        tree cond_result = __evaluate_1(tWLOOP_COND(t),
-                                        depth + 1);
+        tree result, cond_result = __evaluate_1(tWLOOP_COND(t),
+                                                depth + 1);
 
         cond_result = convert_to_comparable_type(cond_result, depth);
 
@@ -2024,13 +2021,12 @@ static tree eval_loop_while(tree t, int depth)
             break;
 
         push_ctx("While Loop");
-        __evaluate(tWLOOP_STMTS(t), depth + 1);
+        result = __evaluate(tWLOOP_STMTS(t), depth + 1);
+        pop_ctx();
 
-        if (tECTX_SHOULD_BREAK(cur_ctx))
+        if (is_T_BREAK(result))
             return NULL;
 
-        pop_ctx();
-
     } while (1);
 
     return NULL;
@@ -2051,19 +2047,20 @@ static tree eval_infix(tree t, int depth)
 
 static tree eval_if(tree t, int depth)
 {
-    tree cond_result = convert_to_comparable_type(tIF_COND(t), depth);
+    tree cond_result = convert_to_comparable_type(tIF_COND(t), depth),
+        result;
 
     if (!is_T_INTEGER(cond_result))
         eval_die(t, "Unknown condition result");
 
     push_ctx("If statement");
     if (mpz_get_si(tINT_VAL(cond_result)))
-        __evaluate(tIF_TRUE_STMTS(t), depth + 1);
+        result = __evaluate(tIF_TRUE_STMTS(t), depth + 1);
     else
-        __evaluate(tIF_ELSE_STMTS(t), depth + 1);
+        result = __evaluate(tIF_ELSE_STMTS(t), depth + 1);
     pop_ctx();
 
-    return NULL;
+    return result;
 }
 
 static tree eval_return(tree t, int depth)
@@ -2716,39 +2713,57 @@ static tree __evaluate_1(tree t, int depth)
     return result;
 }
 
-static void __evaluate(tree head, int depth)
+/* Unwind to the function that is being executed, making it return the
+ * value of `ret'. */
+static void __attribute__((noreturn)) do_return(tree ret)
+{
+    tree fn_ctx = cur_ctx;
+
+    while (fn_ctx && !tECTX_IS_FN_CALL(fn_ctx))
+        fn_ctx = tECTX_PARENT_CTX(fn_ctx);
+
+    /* If we reach the top of the evaluation stack, we have been
+     * executing a cscript and the top-level of it has called return. In
+     * that case, just return the result.
+     */
+    if (!fn_ctx)
+        cscript_exit(tRET_EXP(ret));
+
+    tECTX_RETVAL(fn_ctx) = tRET_EXP(ret);
+    longjmp(tECTX_JMP_BUF(fn_ctx), 1);
+}
+
+/* Execute a statement, or a chain of statements in order.  If a `break'
+ * was executed no further statements are evaluated and the T_BREAK is
+ * returned, so it can be passed on to the innermost loop.  Otherwise,
+ * return NULL. */
+static tree __evaluate(tree head, int depth)
 {
     tree i;
 
     if (!head)
-        return;
-
-    if (!is_CHAIN_HEAD(head))
-        __evaluate_1(head, depth);
+        return NULL;
 
-    for_each_tree(i, head) {
-        tree result = __evaluate_1(i, depth);
+    if (!is_CHAIN_HEAD(head)) {
+        tree result = __evaluate_1(head, depth);
 
-        if (is_T_RETURN(result)) {
-            tree fn_ctx = cur_ctx;
+        if (is_T_RETURN(result))
+            do_return(result);
 
-            while (fn_ctx && !tECTX_IS_FN_CALL(fn_ctx))
-                fn_ctx = tECTX_PARENT_CTX(fn_ctx);
+        return is_T_BREAK(result) ? result : NULL;
+    }
 
-            /* If we reach the top of the evaluation stack, we have been
-             * executing a cscript and the top-level of it has called return. In
-             * that case, just return the result.
-             */
-            if (!fn_ctx)
-                cscript_exit(tRET_EXP(result));
+    for_each_tree(i, head) {
+        tree result = __evaluate_1(i, depth);
 
-            tECTX_RETVAL(fn_ctx) = tRET_EXP(result);
-            longjmp(tECTX_JMP_BUF(fn_ctx), 1);
-        }
+        if (is_T_RETURN(result))
+            do_return(result);
 
         if (is_T_BREAK(result))
-            return;
+            return result;
     }
+
+    return NULL;
 }
 
 int get_c_main_return_value(tree t)
-- 
2.43.0


From 6256865c8947f5ac393f72703fbcfe9f8efd9a22 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:34 +0000
Subject: [PATCH 03/56] fix: truncate integer division towards zero and shift
 right arithmetically

mpz_div rounds towards negative infinity, so -7 / 2 gave -4, and
mpz_tdiv_q_2exp rounds towards zero, so -7 >> 1 gave -3.
---
 src/evaluate.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/evaluate.c b/src/evaluate.c
index 962f128..b66bc9f 100644
--- a/src/evaluate.c
+++ b/src/evaluate.c
@@ -1452,7 +1452,7 @@ static tree eval_rshift(tree t, int depth)
     if (!(is_T_INTEGER(left) && is_T_INTEGER(right)))
         eval_die(t, "Could not subtract to non integer type\n");
 
-    mpz_tdiv_q_2exp(tINT_VAL(ret), tINT_VAL(left), mpz_get_ui(tINT_VAL(right)));
+    mpz_fdiv_q_2exp(tINT_VAL(ret), tINT_VAL(left), mpz_get_ui(tINT_VAL(right)));
 
     return ret;
 }
@@ -1564,7 +1564,7 @@ static tree eval_div(tree t, int depth)
     if (!(is_T_INTEGER(left) && is_T_INTEGER(right)))
         eval_die(t, "Could not subtract to non integer type\n");
 
-    mpz_div(tINT_VAL(ret), tINT_VAL(left), tINT_VAL(right));
+    mpz_tdiv_q(tINT_VAL(ret), tINT_VAL(left), tINT_VAL(right));
 
     return ret;
 }
-- 
2.43.0


From 2359f2ae8837e38608b75eb904b286337db35447 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:20 +0000
Subject: [PATCH 04/56] fix: execute compound statements that are nested in a
 block

The head of the nested statement chain was itself chained on to the
enclosing block, corrupting both, and had no evaluation rule.
---
 src/c.lang     |  3 +++
 src/evaluate.c | 13 +++++++++++++
 src/parser.m4  |  6 ++++++
 3 files changed, 22 insertions(+)

diff --git a/src/c.lang b/src/c.lang
index ad1a96f..c9b6e2b 100644
--- a/src/c.lang
+++ b/src/c.lang
@@ -111,6 +111,9 @@
 (deftype T_IF "If" "tIF"
          ("COND" "TRUE_STMTS" "ELSE_STMTS"))
 
+(deftype T_BLOCK "Compound statement" "tBLOCK"
+         ("STMTS"))
+
 (deftype T_ASSIGN "Assignment" "tASSIGN"
          ("LHS" "RHS"))
 
diff --git a/src/evaluate.c b/src/evaluate.c
index b66bc9f..98735d5 100644
--- a/src/evaluate.c
+++ b/src/evaluate.c
@@ -2628,6 +2628,18 @@ static tree eval_evaluator_ctx(tree t, int depth)
     return ret;
 }
 
+/* A compound statement that appears as a statement in its own right. */
+static tree eval_block(tree t, int depth)
+{
+    tree result;
+
+    push_ctx("Block");
+    result = __evaluate(tBLOCK_STMTS(t), depth + 1);
+    pop_ctx();
+
+    return result;
+}
+
 static tree eval_self(tree t, int depth)
 {
     return t;
@@ -2687,6 +2699,7 @@ static tree __evaluate_1(tree t, int depth)
     case T_IF:         result = eval_if(t, depth + 1);         break;
     case T_RETURN:     result = eval_return(t, depth + 1);     break;
     case T_BREAK:      result = eval_break(t, depth + 1);      break;
+    case T_BLOCK:      result = eval_block(t, depth + 1);      break;
     case T_DECL_COMPOUND:result = eval_decl_compound(t, depth + 1);break;
     case T_ENUMERATOR: result = eval_enumerator(t, depth + 1); break;
     case T_SIZEOF:     result = eval_sizeof(t, depth + 1);     break;
diff --git a/src/parser.m4 b/src/parser.m4
index 2634589..0dbedae 100644
--- a/src/parser.m4
+++ b/src/parser.m4
@@ -1416,6 +1416,12 @@ CSCRIPT_ONLY
     statement
     : expression_statement
     | compound_statement
+    {
+        tree block = tree_make(T_BLOCK);
+        tBLOCK_STMTS(block) = $1;
+        set_locus(block, @1);
+        $$ = block;
+    }
     | selection_statement
     | iteration_statement
     | jump_statement
-- 
2.43.0


From b61a7b5b6f9bbdf094b75cea13d7c59db7718e1c Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:45 +0000
Subject: [PATCH 05/56] fix: convert integer values by their own type

Values above LONG_MAX lost their top bit or compared as negative, the
value of a variable was read as a long or double whatever its type when
it was assigned to another, and negative enumerators and array indices
lost their sign.
---
 src/evaluate.c | 90 ++++++++++++++++++++++++++++++++++++++------------
 1 file changed, 68 insertions(+), 22 deletions(-)

diff --git a/src/evaluate.c b/src/evaluate.c
index 98735d5..628d2b1 100644
--- a/src/evaluate.c
+++ b/src/evaluate.c
@@ -306,6 +306,16 @@ tree make_live_var(tree type)
     return live_var;
 }
 
+/* Return the value of a T_INTEGER, wrapped in the same way as a
+ * conversion to a fixed-width type.  Note that mpz_get_si can't be used
+ * as it doesn't yield the most significant bit. */
+static signed long int get_integer_val(tree integer)
+{
+    unsigned long int val = mpz_get_ui(tINT_VAL(integer));
+
+    return mpz_sgn(tINT_VAL(integer)) < 0 ? -val : val;
+}
+
 static tree make_int_from_live_var(tree var)
 {
     tree ret = tree_make(T_INTEGER);
@@ -316,18 +326,23 @@ static tree make_int_from_live_var(tree var)
         case type:                                                         \
             mpz_init_set_si(tINT_VAL(ret), (ptrdiff_t)tLV_VAL(var)->type); \
             break;
+#define SETUINT(type)                                                      \
+        case type:                                                         \
+            mpz_init_set_ui(tINT_VAL(ret), (size_t)tLV_VAL(var)->type);    \
+            break;
         SETINT(D_T_CHAR);
         SETINT(D_T_SHORT);
         SETINT(D_T_INT);
         SETINT(D_T_LONG);
         SETINT(D_T_LONGLONG);
-        SETINT(D_T_UCHAR);
-        SETINT(D_T_USHORT);
-        SETINT(D_T_UINT);
-        SETINT(D_T_ULONG);
-        SETINT(D_T_ULONGLONG);
-        SETINT(D_T_PTR);
+        SETUINT(D_T_UCHAR);
+        SETUINT(D_T_USHORT);
+        SETUINT(D_T_UINT);
+        SETUINT(D_T_ULONG);
+        SETUINT(D_T_ULONGLONG);
+        SETUINT(D_T_PTR);
 #undef SETINT
+#undef SETUINT
     default:
         eval_die(var, "Could not create integer type from live var.");
     }
@@ -368,7 +383,7 @@ static tree convert_to_comparable_type(tree t, int depth)
         tree ret = make_live_var(dest_type);                            \
         if (!is_T_INTEGER(intval))                                      \
             eval_die(intval, "attempted to convert from non-integer\n"); \
-        tLV_VAL(ret)->tname = (ctype)mpz_get_si(tINT_VAL(intval));          \
+        tLV_VAL(ret)->tname = (ctype)get_integer_val(intval);          \
         return ret;                                                     \
     }
 #include "ctypes.def"
@@ -1150,10 +1165,19 @@ static void assign_integer(tree var, tree right)
     switch (TYPE(right))
     {
     case T_INTEGER:
-         val = mpz_get_si(tINT_VAL(right));
+         val = get_integer_val(right);
          break;
     case T_LIVE_VAR:
-        val = tLV_VAL(right)->D_T_LONG;
+        switch (TYPE(tLV_TYPE(right))) {
+#define DEFCTYPE(TNAME, DESC, CTYPE, FMT, FFMEM)                  \
+        case TNAME:                                               \
+            val = (signed long int)tLV_VAL(right)->TNAME;         \
+            break;
+        #include "ctypes.def"
+        #undef DEFCTYPE
+        default:
+            eval_die(right, "unknown rvalue assignment to integer.\n");
+        }
         break;
     default:
         eval_die(right, "unknown rvalue assignment to integer.\n");
@@ -1179,13 +1203,34 @@ static void assign_float(tree var, tree right)
     switch (TYPE(right))
     {
     case T_INTEGER:
-        val = (double)mpz_get_si(tINT_VAL(right));
+        val = mpz_get_d(tINT_VAL(right));
          break;
     case T_FLOAT:
         val = (double)mpf_get_d(tFLOAT_VAL(right));
         break;
     case T_LIVE_VAR:
-        val = tLV_VAL(right)->D_T_DOUBLE;
+        switch (TYPE(tLV_TYPE(right))) {
+#define GETFLOAT(TNAME)                                           \
+        case TNAME:                                               \
+            val = (double)tLV_VAL(right)->TNAME;                  \
+            break;
+        GETFLOAT(D_T_CHAR);
+        GETFLOAT(D_T_SHORT);
+        GETFLOAT(D_T_INT);
+        GETFLOAT(D_T_LONG);
+        GETFLOAT(D_T_LONGLONG);
+        GETFLOAT(D_T_UCHAR);
+        GETFLOAT(D_T_USHORT);
+        GETFLOAT(D_T_UINT);
+        GETFLOAT(D_T_ULONG);
+        GETFLOAT(D_T_ULONGLONG);
+        GETFLOAT(D_T_FLOAT);
+        GETFLOAT(D_T_DOUBLE);
+        GETFLOAT(D_T_LONGDOUBLE);
+#undef GETFLOAT
+        default:
+            eval_die(right, "unknown rvalue assignment to float.\n");
+        }
         break;
     default:
         eval_die(right, "unknown rvalue assignment to float.\n");
@@ -1216,7 +1261,7 @@ static void assign_ptr(tree var, tree right)
         ptr = (void *)tLV_VAL(right)->D_T_PTR;
         break;
     case T_INTEGER:
-        ptr = (void *)mpz_get_ui(tINT_VAL(right));
+        ptr = (void *)get_integer_val(right);
         break;
     default:
         eval_die(right, "Could not assign to non-pointer type");
@@ -1988,7 +2033,7 @@ static tree eval_loop_for(tree t, int depth)
         if (!is_T_INTEGER(cond_result))
             eval_die(t, "Unknown condition result");
 
-        if (!mpz_get_si(tINT_VAL(cond_result)))
+        if (!mpz_sgn(tINT_VAL(cond_result)))
             break;
 
         push_ctx("For Loop");
@@ -2017,7 +2062,7 @@ static tree eval_loop_while(tree t, int depth)
         if (!is_T_INTEGER(cond_result))
             eval_die(t, "Unknown condition result");
 
-        if (!mpz_get_si(tINT_VAL(cond_result)))
+        if (!mpz_sgn(tINT_VAL(cond_result)))
             break;
 
         push_ctx("While Loop");
@@ -2039,7 +2084,7 @@ static tree eval_infix(tree t, int depth)
     if (!is_T_INTEGER(cond_result))
         eval_die(t, "Unknown condition result");
 
-    if (mpz_get_si(tINT_VAL(cond_result)))
+    if (mpz_sgn(tINT_VAL(cond_result)))
         return __evaluate_1(tINFIX_TRUE_STMT(t), depth + 1);
     else
         return __evaluate_1(tINFIX_FALSE_STMT(t), depth + 1);
@@ -2054,7 +2099,7 @@ static tree eval_if(tree t, int depth)
         eval_die(t, "Unknown condition result");
 
     push_ctx("If statement");
-    if (mpz_get_si(tINT_VAL(cond_result)))
+    if (mpz_sgn(tINT_VAL(cond_result)))
         result = __evaluate(tIF_TRUE_STMTS(t), depth + 1);
     else
         result = __evaluate(tIF_ELSE_STMTS(t), depth + 1);
@@ -2277,7 +2322,7 @@ static tree eval_decl_compound(tree t, int depth)
 static tree eval_enumerator(tree t, int depth)
 {
     tree enum_expr, enum_base_type = tree_make(ENUMTYPE);
-    unsigned int enum_val = 0;
+    int enum_val = 0;
 
     /* Handle the case where a perviously declared enum is referred to. */
     if (!tENUM_ENUMS(t))
@@ -2307,7 +2352,7 @@ static tree eval_enumerator(tree t, int depth)
                 convert_to_comparable_type(tASSIGN_RHS(enum_expr), depth);
 
             enum_id = tASSIGN_LHS(enum_expr);
-            enum_val = (unsigned int)mpz_get_ui(tINT_VAL(new_val));
+            enum_val = (int)get_integer_val(new_val);
 
             break;
         }
@@ -2315,7 +2360,7 @@ static tree eval_enumerator(tree t, int depth)
             eval_die(t, "Unknown enumerator expression\n");
         }
 
-        mpz_init_set_ui(tINT_VAL(integer), enum_val);
+        mpz_init_set_si(tINT_VAL(integer), enum_val);
         map_identifier(enum_id, integer);
         enum_val++;
     }
@@ -2349,7 +2394,8 @@ static tree eval_array_access(tree t, int depth)
     tree array = __evaluate_1(tARR_ACCESS_OBJ(t), depth + 1),
         index = __evaluate_1(tARR_ACCESS_IDX(t), depth + 1),
         new_ptr, deref;
-    size_t idx, base_type_length;
+    size_t base_type_length;
+    signed long int idx;
     void *base;
 
     if (!is_T_LIVE_VAR(array))
@@ -2364,7 +2410,7 @@ static tree eval_array_access(tree t, int depth)
     if (!is_T_INTEGER(index))
         eval_die(index, "Unknown index type\n");
 
-    idx = mpz_get_ui(tINT_VAL(index));
+    idx = get_integer_val(index);
 
     base = tLV_VAL(array)->D_T_PTR;
 
@@ -2374,7 +2420,7 @@ static tree eval_array_access(tree t, int depth)
     /* Calculate the offset into the array and make a pointer to point
      * to that offset. */
     new_ptr = make_live_var(tLV_TYPE(array));
-    tLV_VAL(new_ptr)->D_T_PTR = base + (base_type_length * idx);
+    tLV_VAL(new_ptr)->D_T_PTR = base + ((signed long int)base_type_length * idx);
 
     /* Dereference the pointer and return the result. */
     deref = tree_make(T_DEREF);
-- 
2.43.0


From 75999d4ab860c78cc7df112596ec0181de70f721 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:17 +0000
Subject: [PATCH 06/56] fix: read integer constants with a leading zero as
 octal

---
 src/lex.m4 | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lex.m4 b/src/lex.m4
index 66c8db2..f322620 100644
--- a/src/lex.m4
+++ b/src/lex.m4
@@ -195,7 +195,7 @@ ALL_TARGETS
                                  else
                                      return IDENTIFIER; }
 
--?[0-9]+                          mpz_init_set_str(LEXLVAL.integer, LEXTEXT, 10); return INTEGER;
+-?[0-9]+                          mpz_init_set_str(LEXLVAL.integer, LEXTEXT, 0); return INTEGER;
 -?[0-9]+\.[0-9]+                mpf_init_set_str(LEXLVAL.ffloat, LEXTEXT, 10); return FLOAT_CST;
 0x{X}+                          mpz_init_set_str(LEXLVAL.integer, LEXTEXT, 0); return INTEGER;
 L?'(\\.|[^\\'\n])+'	        mpz_init_set_si(LEXLVAL.integer, lex_char(LEXTEXT)); return INTEGER;
-- 
2.43.0


From cbd9615000a2162f0739c22b7406786063c798da Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:59 +0000
Subject: [PATCH 07/56] fix: align and pad structs and unions by their most
 aligned member

A nested compound was aligned as its first member and no compound had
tail padding, so offsets and sizes disagreed with compiled code.
---
 src/c.lang     |  1 +
 src/evaluate.c | 42 ++++++++++++++++++------------------------
 2 files changed, 19 insertions(+), 24 deletions(-)

diff --git a/src/c.lang b/src/c.lang
index c9b6e2b..9339579 100644
--- a/src/c.lang
+++ b/src/c.lang
@@ -178,6 +178,7 @@
 (deftype T_DECL_COMPOUND "Compound Declataion" "tCOMP_DECL"
          ("ID" "DECLS"
                ("SZ" sz)
+               ("ALIGN" sz)
                ("EXPANDED" flag)
                ("TYPE"  comp_decl_type)))
 
diff --git a/src/evaluate.c b/src/evaluate.c
index 628d2b1..1d95998 100644
--- a/src/evaluate.c
+++ b/src/evaluate.c
@@ -2176,34 +2176,20 @@ static size_t get_alignment_for_type(tree t, int depth)
     {
     case T_LIVE_VAR:
     {
-
+        /* For an array, the alignment requirement is that of the
+         * array's base type. */
         if (tLV_IS_ARRAY(t))
-        {
-            /* For an array, the alignment requirement is that of the
-             * array's base type. */
-            tree array_type = tDTPTR_EXP(tLV_TYPE(t));
-
-            alignment = get_size_of_type(array_type, depth);
-        }
+            alignment = get_alignment_for_type(tDTPTR_EXP(tLV_TYPE(t)), depth);
         else
-            alignment = get_size_of_type(tLV_TYPE(t), depth);
+            alignment = get_alignment_for_type(tLV_TYPE(t), depth);
         break;
     }
     case T_LIVE_COMPOUND:
-    {
-        tree first_member = NULL;
-
-        for_each_tree(first_member, tLV_COMP_MEMBERS(t))
-            break;
-
-        if (!first_member)
-            eval_die(t, "First member not found in live compound");
-
-        first_member = tEMAP_RIGHT(first_member);
-
-        alignment = get_alignment_for_type(first_member, depth);
-    }
-    break;
+        alignment = get_alignment_for_type(tLV_COMP_DECL(t), depth);
+        break;
+    case T_DECL_COMPOUND:
+        alignment = tCOMP_DECL_ALIGN(t);
+        break;
     case D_T_CHAR...D_T_PTR:
         alignment = get_size_of_type(t, depth);
         break;
@@ -2218,7 +2204,7 @@ static tree eval_decl_compound(tree t, int depth)
 {
     tree i, struct_id = tCOMP_DECL_ID(t);
     int offset = 0;
-    size_t max_member_sz = 0;
+    size_t max_member_sz = 0, max_alignment = 1;
 
     /* We can arrive here if something like the following code is evaluated:
      *
@@ -2291,6 +2277,9 @@ static tree eval_decl_compound(tree t, int depth)
         member_size = get_size_of_type(live_var, depth);
         member_alignment = get_alignment_for_type(live_var, depth);
 
+        if (member_alignment > max_alignment)
+            max_alignment = member_alignment;
+
         if (offset == 0)
             padding_size = 0;
         else
@@ -2314,6 +2303,11 @@ static tree eval_decl_compound(tree t, int depth)
     else
         tCOMP_DECL_SZ(t) = max_member_sz;
 
+    /* Pad the end of the compound so that every element of an array of
+     * it is aligned. */
+    tCOMP_DECL_SZ(t) += (~tCOMP_DECL_SZ(t) + 1) & (max_alignment - 1);
+    tCOMP_DECL_ALIGN(t) = max_alignment;
+
     tCOMP_DECL_EXPANDED(t) = 1;
 
     return t;
-- 
2.43.0


From 72e6c5f0052c8878a0aff27074939e43c27cc0cb Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:05 +0000
Subject: [PATCH 08/56] fix: exit with the value that a script's main function
 returns

---
 src/cscript.c  | 21 +++++++++++----------
 src/evaluate.c |  8 +++++++-
 2 files changed, 18 insertions(+), 11 deletions(-)

diff --git a/src/cscript.c b/src/cscript.c
index 52310a5..6ef4800 100644
--- a/src/cscript.c
+++ b/src/cscript.c
@@ -105,7 +105,7 @@ static void create_arguments(int argc, char *argv[])
     evaluate(chain, "<COMPOSE ARGS>");
 }
 
-static void add_call_to_main(tree head, int num_args)
+static tree make_call_to_main(int num_args)
 {
     tree main_fncall = tree_make(T_FN_CALL);
 
@@ -121,11 +121,11 @@ static void add_call_to_main(tree head, int num_args)
     if (num_args > 2)
         fprintf(stderr, "Error: too many arguments in main function");
 
-    tree_chain(main_fncall, head);
+    return main_fncall;
 }
 
-static void __evaluate_cscript(tree head, const char *fname, int argc,
-                               char* argv[])
+static int __evaluate_cscript(tree head, const char *fname, int argc,
+                              char* argv[])
 {
     /* Figure out how to execute the cscript:
      *
@@ -179,10 +179,13 @@ static void __evaluate_cscript(tree head, const char *fname, int argc,
 
     create_arguments(argc, argv);
 
-    if (has_main)
-        add_call_to_main(head, num_main_args);
-
     evaluate(head, fname);
+
+    if (!has_main)
+        return 0;
+
+    /* The value that main returns is the exit status of the script. */
+    return get_c_main_return_value(evaluate_expr(make_call_to_main(num_main_args)));
 }
 
 void cscript_exit(tree result)
@@ -213,7 +216,5 @@ int evaluate_cscript(const char *script_name,
       exit(0);
   }
 
-  __evaluate_cscript(cscript_parse_head, script_name, argc, argv);
-
-  return 0;
+  return __evaluate_cscript(cscript_parse_head, script_name, argc, argv);
 }
diff --git a/src/evaluate.c b/src/evaluate.c
index 1d95998..c11cd63 100644
--- a/src/evaluate.c
+++ b/src/evaluate.c
@@ -2822,7 +2822,13 @@ static tree __evaluate(tree head, int depth)
 int get_c_main_return_value(tree t)
 {
     int ret;
-    tree retnum = convert_to_comparable_type(t, 0);
+    tree retnum;
+
+    /* Nothing was returned. */
+    if (!t)
+        return 0;
+
+    retnum = convert_to_comparable_type(t, 0);
 
     if (!is_T_INTEGER(retnum))
         return 1;
-- 
2.43.0


From aac9355f8ec955f3f2fb2661d10bc3e36557190c Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:20 +0000
Subject: [PATCH 09/56] fix: copy a function's return value out of its context

The storage of a returned variable was owned by the popped context and
could be reclaimed before the caller used it, and the value was not
converted to the function's return type.
---
 src/evaluate.c | 52 ++++++++++++++++++++++++++++++++++++++++++--------
 1 file changed, 44 insertions(+), 8 deletions(-)

diff --git a/src/evaluate.c b/src/evaluate.c
index c11cd63..3c06262 100644
--- a/src/evaluate.c
+++ b/src/evaluate.c
@@ -44,6 +44,9 @@ static const char *current_filename;
 static tree __evaluate_1(tree t, int depth);
 static tree __evaluate(tree t, int depth);
 
+static tree alloc_struct(tree struct_decl, int depth);
+static void assign_live_var(tree t, tree left, tree right);
+
 enum identifier_search_scope
 {
     SCOPE_CURRENT_CTX,
@@ -406,6 +409,26 @@ static tree eval_fn_args(tree args, int depth)
     return ret;
 }
 
+static tree copy_return_value(tree val, tree type, int depth)
+{
+    tree ret;
+
+    if (is_T_LIVE_COMPOUND(val)) {
+        ret = alloc_struct(tLV_COMP_DECL(val), depth);
+        memcpy(tLV_COMP_BASE(ret), tLV_COMP_BASE(val),
+               tCOMP_DECL_SZ(tLV_COMP_DECL(val)));
+        return ret;
+    }
+
+    if (!val || !is_CTYPE(type))
+        return val;
+
+    ret = make_live_var(type);
+    assign_live_var(val, ret, val);
+
+    return ret;
+}
+
 static tree eval_fn_call(tree t, int depth)
 {
     /* There are five possibilities here:
@@ -519,7 +542,13 @@ static tree eval_fn_call(tree t, int depth)
                 return_val = tECTX_RETVAL(cur_ctx);
             }
 
+            /* The storage of the value belongs to the context of the
+             * function, take a copy of it that belongs to the caller's. */
+            inhibit_gc();
             pop_ctx();
+            return_val = copy_return_value(return_val,
+                                           tFN_RET_TYPE(function), depth);
+            enable_gc();
 
             return return_val;
         } else {
@@ -1270,15 +1299,10 @@ static void assign_ptr(tree var, tree right)
     tLV_VAL(var)->D_T_PTR = ptr;
 }
 
-static tree eval_assign(tree t, int depth)
+/* Store `right' in the live variable `left', `t' is the tree to blame for
+ * any error. */
+static void assign_live_var(tree t, tree left, tree right)
 {
-    tree left = __evaluate_1(tASSIGN_LHS(t), depth + 1);
-    tree right = __evaluate_1(tASSIGN_RHS(t), depth + 1);
-
-    /* Ensure we have a valid lvalue. */
-    if (!is_T_LIVE_VAR(left))
-        eval_die(t, "Not a valid lvalue.\n");
-
     switch (TYPE(tLV_TYPE(left))) {
     case D_T_CHAR ... D_T_ULONGLONG:
         assign_integer(left, right);
@@ -1292,6 +1316,18 @@ static tree eval_assign(tree t, int depth)
     default:
         eval_die(t, "Unknown assignment rvalue type.");
     }
+}
+
+static tree eval_assign(tree t, int depth)
+{
+    tree left = __evaluate_1(tASSIGN_LHS(t), depth + 1);
+    tree right = __evaluate_1(tASSIGN_RHS(t), depth + 1);
+
+    /* Ensure we have a valid lvalue. */
+    if (!is_T_LIVE_VAR(left))
+        eval_die(t, "Not a valid lvalue.\n");
+
+    assign_live_var(t, left, right);
 
     /* Return the value that was assigned, thereby making an assignment work as
      * a rvalue. */
-- 
2.43.0


From d4f75848cd0add603e09f204010523d8afa01262 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:36 +0000
Subject: [PATCH 10/56] fix: keep the storage of string literals for the whole
 execution

A literal's storage was reclaimed with the context that assigned it to a
pointer, leaving pointers that outlive the context dangling.
---
 src/evaluate.c | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/src/evaluate.c b/src/evaluate.c
index 3c06262..d3884c1 100644
--- a/src/evaluate.c
+++ b/src/evaluate.c
@@ -39,6 +39,12 @@ const tree get_include_chain(void)
     return include_chain;
 }
 
+/* The storage of each distinct string literal that a pointer has been made
+ * to point at, as a chain of T_STRING tree objects.  As in C, it exists for
+ * the rest of the program's execution. */
+static tree literal_chain = NULL;
+GC_STATIC_TREE(literal_chain);
+
 static const char *current_filename;
 
 static tree __evaluate_1(tree t, int depth);
@@ -1277,6 +1283,21 @@ static void assign_float(tree var, tree right)
     }
 }
 
+static char *get_literal_storage(tree string)
+{
+    tree literal;
+
+    for_each_tree(literal, literal_chain)
+        if (strcmp(tSTRING_VAL(literal), tSTRING_VAL(string)) == 0)
+            return tSTRING_VAL(literal);
+
+    literal = tree_make(T_STRING);
+    tSTRING_VAL(literal) = strdup(tSTRING_VAL(string));
+    tree_chain(literal, literal_chain);
+
+    return tSTRING_VAL(literal);
+}
+
 static void assign_ptr(tree var, tree right)
 {
     void *ptr;
@@ -1284,7 +1305,7 @@ static void assign_ptr(tree var, tree right)
     switch (TYPE(right))
     {
     case T_STRING:
-        ptr = track_alloc(strdup(tSTRING_VAL(right)));
+        ptr = get_literal_storage(right);
         break;
     case T_LIVE_VAR:
         ptr = (void *)tLV_VAL(right)->D_T_PTR;
@@ -2945,4 +2966,5 @@ void eval_init(void)
     eval_init_builtins();
     push_ctx("Toplevel");
     include_chain = tree_make(CHAIN_HEAD);
+    literal_chain = tree_make(CHAIN_HEAD);
 }
-- 
2.43.0


From 481d91e17d143264d0c55b7e31c482a5f5d7a016 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:42 +0000
Subject: [PATCH 11/56] fix: don't strip pointers from an initialised
 declarator in the AST

The second evaluation of a declaration such as 'int *p = &x;' declared p
as an int.
---
 src/evaluate.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/evaluate.c b/src/evaluate.c
index d3884c1..21ab2fc 100644
--- a/src/evaluate.c
+++ b/src/evaluate.c
@@ -857,12 +857,16 @@ static tree handle_declarator(tree decl, tree decl_type, int depth)
     case T_ASSIGN:
     {
         tree ret = handle_declarator(tASSIGN_LHS(decl), decl_type, depth);
+        tree assign = tree_make(T_ASSIGN);
 
         /* handle_declarator will have stripped off any pointers from the decl name.
-         * Therefore ret now becomes the LHS of the assignment. */
-        tASSIGN_LHS(decl) = ret;
+         * Therefore ret now becomes the LHS of the assignment. Don't change
+         * decl itself, the pointers are needed when it's next evaluated. */
+        tASSIGN_LHS(assign) = ret;
+        tASSIGN_RHS(assign) = tASSIGN_RHS(decl);
+        tLOCUS(assign) = tLOCUS(decl);
 
-        __evaluate_1(decl, depth + 1);
+        __evaluate_1(assign, depth + 1);
         return ret;
     }
     default:
-- 
2.43.0


From 81d3656bff72a5d6978730d108b61b4da46c0472 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:35 +0000
Subject: [PATCH 12/56] fix: return the result of calls through function
 pointers, keep closures

A function called through a pointer always returned 0, and its closure
was reclaimed while the pointer could still be called.
---
 src/function-call.c | 52 +++++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 50 insertions(+), 2 deletions(-)

diff --git a/src/function-call.c b/src/function-call.c
index 5e9df69..8502751 100644
--- a/src/function-call.c
+++ b/src/function-call.c
@@ -12,6 +12,11 @@
 
 #define ARG_STACK_SZ 32
 
+/* All T_CLOSURE tree objects that have been created. These need to be kept
+ * for as long as their entry points could be called, i.e. forever. */
+static tree closure_chain = NULL;
+GC_STATIC_TREE(closure_chain);
+
 static void push_arg(ffi_type **type_stack,
                      void **val_stack,
                      int *n,
@@ -129,7 +134,9 @@ static void closure_entry(ffi_cif *cif, void *ret, void **ffi_args, void *user)
     tree arg,
         args = tCLOSURE_ARG_TYPES(closure),
         arg_chain = tree_make(CHAIN_HEAD),
-        fn_call = tree_make(T_FN_CALL);
+        fn_call = tree_make(T_FN_CALL),
+        ret_type = tCLOSURE_RET_TYPE(closure),
+        result, assign;
     int n = 0;
 
     for_each_tree(arg, args) {
@@ -154,7 +161,42 @@ static void closure_entry(ffi_cif *cif, void *ret, void **ffi_args, void *user)
     tFNCALL_ID(fn_call) = tCLOSURE_FN(closure);
     tFNCALL_ARGS(fn_call) = arg_chain;
 
-    evaluate(fn_call, "<PTRCALL>");
+    result = evaluate_expr(fn_call);
+
+    if (is_D_T_VOID(ret_type) || !result)
+        return;
+
+    /* Convert the result to the type that the function returns. */
+    assign = tree_make(T_ASSIGN);
+    tASSIGN_LHS(assign) = make_live_var(ret_type);
+    tASSIGN_RHS(assign) = result;
+    evaluate_expr(assign);
+
+    /* Note that libffi expects integral types to be widened to the size of
+     * a register. */
+    switch (TYPE(ret_type)) {
+#define RETVAL(TNAME, CTYPE)                                            \
+    case TNAME:                                                         \
+        *(CTYPE *)ret = tLV_VAL(tASSIGN_LHS(assign))->TNAME;            \
+        break;
+    RETVAL(D_T_CHAR, ffi_sarg);
+    RETVAL(D_T_SHORT, ffi_sarg);
+    RETVAL(D_T_INT, ffi_sarg);
+    RETVAL(D_T_LONG, ffi_sarg);
+    RETVAL(D_T_LONGLONG, ffi_sarg);
+    RETVAL(D_T_UCHAR, ffi_arg);
+    RETVAL(D_T_USHORT, ffi_arg);
+    RETVAL(D_T_UINT, ffi_arg);
+    RETVAL(D_T_ULONG, ffi_arg);
+    RETVAL(D_T_ULONGLONG, ffi_arg);
+    RETVAL(D_T_FLOAT, float);
+    RETVAL(D_T_DOUBLE, double);
+    RETVAL(D_T_LONGDOUBLE, long double);
+    RETVAL(D_T_PTR, void *);
+#undef RETVAL
+    default:
+        eval_die(tCLOSURE_FN(closure), "Unknown return type in closure entry");
+    }
 }
 
 void *get_entry_point_for_fn(tree fndef)
@@ -165,6 +207,12 @@ void *get_entry_point_for_fn(tree fndef)
     tree arg_chain = tree_make(CHAIN_HEAD),
         closure = tree_make(T_CLOSURE);
     ffi_type *ffi_ret_type = &ffi_type_void;
+
+    if (!closure_chain)
+        closure_chain = tree_make(CHAIN_HEAD);
+
+    tree_chain(closure, closure_chain);
+
     tCLOSURE_CIF(closure) = malloc(sizeof(*tCLOSURE_CIF(closure)));
     tCLOSURE_TYPES(closure) = calloc(sizeof(*tCLOSURE_TYPES(closure)), ARG_STACK_SZ);
 
-- 
2.43.0


From 1642759fc78ed2ae60bf64207acf592ae8829d3e Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:12 +0000
Subject: [PATCH 13/56] fix: allow a for loop's condition to be omitted

---
 src/evaluate.c | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/evaluate.c b/src/evaluate.c
index 21ab2fc..9143b10 100644
--- a/src/evaluate.c
+++ b/src/evaluate.c
@@ -2086,16 +2086,20 @@ static tree eval_loop_for(tree t, int depth)
 
     do {
 
-        tree result, cond_result = __evaluate_1(tFLOOP_COND(t),
-                                                depth + 1);
+        tree result, cond_result;
 
-        cond_result = convert_to_comparable_type(cond_result, depth + 1);
+        /* An omitted condition is always true. */
+        if (!is_T_EMPTY(tFLOOP_COND(t))) {
+            cond_result = __evaluate_1(tFLOOP_COND(t), depth + 1);
 
-        if (!is_T_INTEGER(cond_result))
-            eval_die(t, "Unknown condition result");
+            cond_result = convert_to_comparable_type(cond_result, depth + 1);
 
-        if (!mpz_sgn(tINT_VAL(cond_result)))
-            break;
+            if (!is_T_INTEGER(cond_result))
+                eval_die(t, "Unknown condition result");
+
+            if (!mpz_sgn(tINT_VAL(cond_result)))
+                break;
+        }
 
         push_ctx("For Loop");
         result = __evaluate(tFLOOP_STMTS(t), depth + 1);
-- 
2.43.0


From 95c5276d42eca055bd6d914fcf9c541f5d1a5034 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:12 +0000
Subject: [PATCH 14/56] fix: treat a lone void parameter as having no
 parameters

---
 src/parser.m4 | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/src/parser.m4 b/src/parser.m4
index 0dbedae..9ca531b 100644
--- a/src/parser.m4
+++ b/src/parser.m4
@@ -31,6 +31,23 @@ static void set_locus(tree t, YYLTYPE locus)
         tLOCUS(t).file = get_identifier(TARGET()_current_file);
 }
 
+/* A single, unnamed `void' parameter declares a function that has no
+ * parameters. */
+static tree strip_void_parameter(tree params)
+{
+    tree param;
+    bool is_void = false;
+    int no_params = 0;
+
+    for_each_tree(param, params) {
+        is_void = is_T_DECL(param) && !tDECL_DECLS(param) &&
+            chain_has_T_VOID_TS(tDECL_SPECS(param));
+        no_params++;
+    }
+
+    return is_void && no_params == 1 ? NULL : params;
+}
+
 static void find_ids_to_map_to_typenames(tree decl)
 {
     tree i;
@@ -1072,7 +1089,7 @@ direct_declarator
 {
     tree fn = tree_make(T_FN);
     tFN_DECL(fn) = $1;
-    tFN_ARGS(fn) = $3;
+    tFN_ARGS(fn) = strip_void_parameter($3);
     set_locus(fn, @2);
     $$ = fn;
 }
@@ -1280,7 +1297,7 @@ direct_abstract_declarator
 | '(' parameter_type_list ')'
 {
     tree fn = tree_make(T_FN);
-    tFN_ARGS(fn) = $2;
+    tFN_ARGS(fn) = strip_void_parameter($2);
     set_locus(fn, @1);
     $$ = fn;
 }
@@ -1295,7 +1312,7 @@ direct_abstract_declarator
 {
     tree fn = tree_make(T_FN);
     tFN_DECL(fn) = $1;
-    tFN_ARGS(fn) = $3;
+    tFN_ARGS(fn) = strip_void_parameter($3);
     set_locus(fn, @2);
     $$ = fn;
 }
-- 
2.43.0


From 29c49151f337710c3305c867e0436bb14869e3dc Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:51 +0000
Subject: [PATCH 15/56] fix: don't look at uninitialised entries of the
 allocation array

Only the first bytes of the array's new half were cleared when it grew,
and the search for its last used entry began one past the end.
---
 src/gc.c | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/gc.c b/src/gc.c
index 3498258..87eb437 100644
--- a/src/gc.c
+++ b/src/gc.c
@@ -134,10 +134,8 @@ static void fixup_alloc_array()
 
     /* Run the alloc pointer backward to see when the first allocation
      * is. */
-    while (alloc_ptr > 0 && !allocs[alloc_ptr])
+    while (alloc_ptr > 0 && !allocs[alloc_ptr - 1])
         alloc_ptr--;
-
-    alloc_ptr++;
 }
 
 static void collect(void)
@@ -172,7 +170,8 @@ static void extend_allocs()
     alloc_array_sz *= 2;
 
     allocs = realloc(allocs, sizeof(*allocs) * alloc_array_sz);
-    memset(&allocs[old_alloc_array_sz], 0, old_alloc_array_sz);
+    memset(&allocs[old_alloc_array_sz], 0,
+           sizeof(*allocs) * (alloc_array_sz - old_alloc_array_sz));
 }
 
 static void track_new_alloc(gc_obj obj)
-- 
2.43.0


From 6b5e31d4a9f2bdd48045f803f0627d36776b4222 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:54 +0000
Subject: [PATCH 16/56] fix: release the memory of floating point constants and
 include names

---
 src/gc.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/gc.c b/src/gc.c
index 87eb437..f828700 100644
--- a/src/gc.c
+++ b/src/gc.c
@@ -92,6 +92,12 @@ static void dealloc_object(gc_obj obj)
     case T_INTEGER:
         mpz_clear(tINT_VAL(t));
         break;
+    case T_FLOAT:
+        mpf_clear(tFLOAT_VAL(t));
+        break;
+    case CPP_INCLUDE:
+        free(tCPP_INCLUDE_STR(t));
+        break;
     case T_IDENTIFIER:
         free(tID_STR(t));
         break;
-- 
2.43.0


From 1b46d6bd77e8577aed573b230c49d87f3ba5d68b Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:03 +0000
Subject: [PATCH 17/56] fix: report a script that could not be preprocessed

---
 src/cscript.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/cscript.c b/src/cscript.c
index 6ef4800..b94cf8f 100644
--- a/src/cscript.c
+++ b/src/cscript.c
@@ -51,7 +51,10 @@ static int parse_cscript(const char *fname)
     parse_result = cscriptparse();
     enable_gc();
 
-    fclose(f);
+    if (pclose(f) != 0) {
+        fprintf(stderr, "Error: could not preprocess %s\n", fname);
+        return 1;
+    }
 
     return parse_result;
 }
-- 
2.43.0


From 9419df7ccaf5f7ea5a87cca982de38645cb19591 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:03 +0000
Subject: [PATCH 18/56] fix: remove the preprocessor's temporary files

---
 src/preprocess.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/preprocess.c b/src/preprocess.c
index 328c785..a730739 100644
--- a/src/preprocess.c
+++ b/src/preprocess.c
@@ -84,6 +84,10 @@ FILE *run_cpp(tree include_chain, char *opts, char *line)
 
   free(command);
 
+  /* The stream keeps the output alive, neither file is needed by name. */
+  unlink(cpp_file_name);
+  unlink(out_file_name);
+
   if (ret < 0) {
     fprintf(stderr, "Invocation of preprocessor process failed\n");
     exit (1);
-- 
2.43.0


From 4b56e7bb9ccfff79e9e4b333c015fadc730c4fbe Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:03 +0000
Subject: [PATCH 19/56] fix: release the pipe, child and stream of REPL
 helpers, copy completions

Every line typed leaked a stream, every member completion a pipe and a
child process, and completing an identifier moved the AST's own
identifier on to the list of matches.
---
 src/repl.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/repl.c b/src/repl.c
index c64d807..4c7caad 100644
--- a/src/repl.c
+++ b/src/repl.c
@@ -2,6 +2,7 @@
 #include <unistd.h>
 #include <stdio.h>
 #include <sys/types.h>
+#include <sys/wait.h>
 #include <pwd.h>
 
 #include "config.h"
@@ -141,7 +142,9 @@ void match_identifiers_for_idmap(tree chain, tree idmap,
     for_each_tree(i, idmap) {
         tree id = tEMAP_LEFT(i);
         if (strncmp(tID_STR(id), prefix, strlen(prefix)) == 0)
-            tree_chain(id, chain);
+            /* The identifier may already be a member of a chain of the
+             * AST, add a copy of it. */
+            tree_chain(get_identifier(tID_STR(id)), chain);
     }
 }
 
@@ -294,6 +297,8 @@ static char **bic_completion(const char *text, int start, int end)
 
         if (ret == -1) {
             perror("Error: fork failed");
+            close(pfds[0]);
+            close(pfds[1]);
             return NULL;
         }
 
@@ -321,7 +326,8 @@ static char **bic_completion(const char *text, int start, int end)
             free(comp_access.access_operator);
             free(comp_access.member_prefix);
 
-            close(pfds[1]);
+            close(pfds[0]);
+            waitpid(ret, NULL, 0);
         }
     }
     else
@@ -366,6 +372,8 @@ static char *run_cpp_on_line(char *line)
     while (pos != line_len)
         ret[pos++] = fgetc(output);
 
+    fclose(output);
+
     return ret;
 }
 
-- 
2.43.0


From f02fcafbe9333eafb2ee933905b2942601977619 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:06 +0000
Subject: [PATCH 20/56] fix: split a completed member access at its last
 operator

The search for '->' did not stop at a match, so only objects with a one
character name could be completed.
---
 src/repl.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/repl.c b/src/repl.c
index 4c7caad..29406c3 100644
--- a/src/repl.c
+++ b/src/repl.c
@@ -92,7 +92,7 @@ static int split_compound_access_text(const char *text,
             break;
         }
 
-        if (strstr(&text[i], "->")) {
+        if (strncmp(&text[i], "->", 2) == 0) {
             comp_access->obj_expr = strdup(text);
             comp_access->obj_expr[i] = '\0';
 
@@ -100,6 +100,7 @@ static int split_compound_access_text(const char *text,
             comp_access->needs_deref = 1;
 
             comp_access->member_prefix = strdup(&text[i + 2]);
+            break;
         }
     }
 
-- 
2.43.0


From 0206e0008710a87335473f252f9c1f03c7153383 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:29 +0000
Subject: [PATCH 21/56] fix: report the use of an expression without a value

The value of, for example, a call to a void function was dereferenced
when used as an operand, argument or initialiser.
---
 src/evaluate.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/evaluate.c b/src/evaluate.c
index 9143b10..724c42d 100644
--- a/src/evaluate.c
+++ b/src/evaluate.c
@@ -364,6 +364,9 @@ static tree convert_to_comparable_type(tree t, int depth)
     tree evaluated = __evaluate_1(t, depth + 1),
         ret;
 
+    if (!evaluated)
+        eval_die(t, "Expression has no value\n");
+
     switch (TYPE(evaluated)) {
     case T_INTEGER:
         ret = evaluated;
@@ -409,6 +412,10 @@ static tree eval_fn_args(tree args, int depth)
     for_each_tree(arg, args) {
         tree fn_arg = tree_make(T_FN_ARG);
         tFNARG_EXP(fn_arg) = __evaluate_1(arg, depth + 1);
+
+        if (!tFNARG_EXP(fn_arg))
+            eval_die(arg, "Function argument has no value\n");
+
         tree_chain(fn_arg, ret);
     }
 
@@ -1352,6 +1359,9 @@ static tree eval_assign(tree t, int depth)
     if (!is_T_LIVE_VAR(left))
         eval_die(t, "Not a valid lvalue.\n");
 
+    if (!right)
+        eval_die(t, "Assigned expression has no value.\n");
+
     assign_live_var(t, left, right);
 
     /* Return the value that was assigned, thereby making an assignment work as
-- 
2.43.0


From 27a7476e909a227250d9535f429eec1b603413ef Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:25 +0000
Subject: [PATCH 22/56] fix: an assignment yields the converted value of its
 left operand

---
 src/evaluate.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/evaluate.c b/src/evaluate.c
index 724c42d..d302e79 100644
--- a/src/evaluate.c
+++ b/src/evaluate.c
@@ -1364,9 +1364,9 @@ static tree eval_assign(tree t, int depth)
 
     assign_live_var(t, left, right);
 
-    /* Return the value that was assigned, thereby making an assignment work as
-     * a rvalue. */
-    return right;
+    /* Return the assigned object: as a rvalue, the value of an assignment is
+     * that of its left operand, i.e. converted to the type of the object. */
+    return left;
 }
 
 static void live_var_add(tree var, unsigned long int val)
-- 
2.43.0


From 3fed8e6ce05cdaf03d4523a4b2830ad5289dcebe Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:41 +0000
Subject: [PATCH 23/56] fix: evaluate a call's arguments outside the function's
 scope

---
 src/evaluate.c | 51 ++++++++++++++++++++++++--------------------------
 1 file changed, 24 insertions(+), 27 deletions(-)

diff --git a/src/evaluate.c b/src/evaluate.c
index d302e79..cd1a6de 100644
--- a/src/evaluate.c
+++ b/src/evaluate.c
@@ -474,7 +474,27 @@ static tree eval_fn_call(tree t, int depth)
         if (tFN_STMTS(function)) {
             tree arg_decls = tFN_ARGS(function),
                 arg_vals = tFNCALL_ARGS(t),
-                arg_decl, arg_val, return_val, fn_ctx;
+                arg_decl, arg_val, arg_chain = NULL, return_val, fn_ctx;
+
+            /* We need to evaluate the argument values before pushing the
+             * context of the function.  This prevents bugs with things such
+             * as:
+             *
+             * 0: int foo(int a, int b)
+             * 1: {
+             * 2:      use(a, b);
+             * 3: }
+             * 4:
+             * 5: int main()
+             * 6: {
+             * 7:     int a = 10;
+             * 8:     foo(20, a);
+             * 9: }
+             *
+             * Notice that if we first declared 'int a' on line 0, the 'a' on
+             * line 8 would evaluate to the newly declared parameter. */
+            if (arg_decls)
+                arg_chain = eval_fn_args(arg_vals, depth);
 
             push_ctx(tID_STR(tFN_DECL(function)));
             tECTX_IS_FN_CALL(cur_ctx) = true;
@@ -497,43 +517,20 @@ static tree eval_fn_call(tree t, int depth)
                     eval_die(t, "Invalid number of parameters to function\n");
 
                 /* Evaluate an assignment for each passed value. */
-                arg_val = arg_vals;
+                arg_val = arg_chain;
 
                 for_each_tree(arg_decl, arg_decls) {
-                    tree eval_arg_val,
-                        decl_identifier,
+                    tree decl_identifier,
                         assign;
 
                     arg_val = list_entry(arg_val->chain.next,
                                          typeof(*arg_val), chain);
 
-                    /* We need to evaluate the argument value before
-                     * adding the declaration on to the new context.  This
-                     * prevents bugs with things such as:
-                     *
-                     * 0: int foo(int a)
-                     * 1: {
-                     * 2:      use(a);
-                     * 3: }
-                     * 4:
-                     * 5: int main()
-                     * 6: {
-                     * 7:     int a = 10;
-                     * 8:     foo(a);
-                     * 9: }
-                     *
-                     * Notice that if we evaluated 'int a' on line 0
-                     * first, then we evaluate the assignment 'a = a' the
-                     * lhs would evaluate to the newly declared 'a' value.
-                     * Therefore, if we evaluate 'a' on line 8 before the
-                     * declaration on line 0, we obtain the correct lvalue
-                     * for assignment. */
-                    eval_arg_val = __evaluate_1(arg_val, depth + 1);
                     decl_identifier = __evaluate_1(arg_decl, depth + 1);
 
                     assign = tree_make(T_ASSIGN);
                     tASSIGN_LHS(assign) = decl_identifier;
-                    tASSIGN_RHS(assign) = eval_arg_val;
+                    tASSIGN_RHS(assign) = tFNARG_EXP(arg_val);
                     __evaluate_1(assign, depth + 1);
                 }
             }
-- 
2.43.0


From ebb77708cd8794912264218629df614829a73eeb Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:22 +0000
Subject: [PATCH 24/56] fix: don't resolve a function's identifiers in the
 scopes of its callers

---
 src/evaluate.c | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/evaluate.c b/src/evaluate.c
index cd1a6de..cb1c983 100644
--- a/src/evaluate.c
+++ b/src/evaluate.c
@@ -23,6 +23,10 @@
 static tree cur_ctx = NULL;
 GC_STATIC_TREE(cur_ctx);
 
+/* The context that holds the declarations that have file scope. */
+static tree toplevel_ctx = NULL;
+GC_STATIC_TREE(toplevel_ctx);
+
 /* This holds the evaluator state after the evaluation of any #include
  * directives.  */
 static tree include_ctx = NULL;
@@ -165,6 +169,17 @@ static tree resolve_id(tree id, tree ectx, enum idmap_type map_type)
     return __resolve_id(id, idmap);
 }
 
+/* Obtain the context of the scope that encloses the scope of `ectx'.  Note
+ * that the parent of a function's context is that of its caller, whose
+ * identifiers aren't visible within the function. */
+static tree get_enclosing_ctx(tree ectx)
+{
+    if (tECTX_IS_FN_CALL(ectx))
+        return toplevel_ctx;
+
+    return tECTX_PARENT_CTX(ectx);
+}
+
 static tree __resolve_identifier(tree id,
                                  enum identifier_search_scope scope,
                                  enum idmap_type map_type)
@@ -182,7 +197,7 @@ static tree __resolve_identifier(tree id,
         if (search_result)
             return search_result;
 
-        search_ctx = tECTX_PARENT_CTX(search_ctx);
+        search_ctx = get_enclosing_ctx(search_ctx);
     }
 
     /* Also search the include_ctx if it exists. */
@@ -225,7 +240,7 @@ tree find_global_identifiers(const char *prefix)
     while (search_ctx) {
         match_identifiers_for_idmap(chain, tECTX_ID_MAP(search_ctx), prefix);
 
-        search_ctx = tECTX_PARENT_CTX(search_ctx);
+        search_ctx = get_enclosing_ctx(search_ctx);
     }
 
     if (include_ctx)
@@ -2980,6 +2995,7 @@ void eval_init(void)
     push_ctx("Bultins");
     eval_init_builtins();
     push_ctx("Toplevel");
+    toplevel_ctx = cur_ctx;
     include_chain = tree_make(CHAIN_HEAD);
     literal_chain = tree_make(CHAIN_HEAD);
 }
-- 
2.43.0


From 79fcfe6a8695c4187a5e98d89f0b7c21b65f6d2b Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:53 +0000
Subject: [PATCH 25/56] fix: limit the scope of a for loop's declaration to the
 loop

---
 src/evaluate.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/evaluate.c b/src/evaluate.c
index cb1c983..631d51e 100644
--- a/src/evaluate.c
+++ b/src/evaluate.c
@@ -2104,6 +2104,10 @@ static tree eval_cast(tree t, int depth)
 
 static tree eval_loop_for(tree t, int depth)
 {
+    /* Identifiers that are declared by the loop itself are only visible
+     * within it. */
+    push_ctx("For Loop Header");
+
     __evaluate_1(tFLOOP_INIT(t), depth + 1);
 
     do {
@@ -2128,12 +2132,14 @@ static tree eval_loop_for(tree t, int depth)
         pop_ctx();
 
         if (is_T_BREAK(result))
-            return NULL;
+            break;
 
         __evaluate_1(tFLOOP_AFTER(t), depth + 1);
 
     } while (1);
 
+    pop_ctx();
+
     return NULL;
 }
 
-- 
2.43.0


From c4dd64e9fc37a9c86942dfa1014be79f15907a13 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:37 +0000
Subject: [PATCH 26/56] fix: evaluate the arguments of calls to functions
 without parameters

---
 src/evaluate.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/evaluate.c b/src/evaluate.c
index 631d51e..f7f0784 100644
--- a/src/evaluate.c
+++ b/src/evaluate.c
@@ -508,8 +508,7 @@ static tree eval_fn_call(tree t, int depth)
              *
              * Notice that if we first declared 'int a' on line 0, the 'a' on
              * line 8 would evaluate to the newly declared parameter. */
-            if (arg_decls)
-                arg_chain = eval_fn_args(arg_vals, depth);
+            arg_chain = eval_fn_args(arg_vals, depth);
 
             push_ctx(tID_STR(tFN_DECL(function)));
             tECTX_IS_FN_CALL(cur_ctx) = true;
-- 
2.43.0


From 292f15bc6bacd2bcd247c5933d729ce60a0f7e00 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:22 +0000
Subject: [PATCH 27/56] fix: take array and function declarators of type names
 into account

sizeof(int[10]) was 4, and a cast to a pointer to function truncated its
operand to the function's result type.
---
 src/evaluate.c | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/src/evaluate.c b/src/evaluate.c
index f7f0784..e573d28 100644
--- a/src/evaluate.c
+++ b/src/evaluate.c
@@ -2582,11 +2582,25 @@ static tree eval_type_specifier(tree t, int depth)
     if (is_T_IDENTIFIER(type) || is_T_DECL_COMPOUND(type))
         type = __evaluate_1(type, depth + 1);
 
-    while (is_T_POINTER(decl)) {
-        tree ptr = tree_make(D_T_PTR);
-        tDTPTR_EXP(ptr) = type;
-        type = ptr;
-        decl = tPTR_EXP(decl);
+    while (decl) {
+        if (is_T_POINTER(decl)) {
+            tree ptr = tree_make(D_T_PTR);
+            tDTPTR_EXP(ptr) = type;
+            type = ptr;
+            decl = tPTR_EXP(decl);
+        } else if (is_T_ARRAY(decl)) {
+            tree array = tree_make(T_ARRAY_TYPE);
+            tARRAY_TYPE_BASE_TYPE(array) = type;
+            tARRAY_TYPE_SZ(array) = tARRAY_SZ(decl);
+            type = array;
+            decl = tARRAY_DECL(decl);
+        } else if (is_T_FN(decl)) {
+            tree fn = alloc_copy_tree(decl);
+            tFN_RET_TYPE(fn) = type;
+            type = fn;
+            decl = tFN_DECL(decl);
+        } else
+            eval_die(t, "Unknown declarator in type name\n");
     }
 
     return type;
@@ -2842,6 +2856,7 @@ static tree __evaluate_1(tree t, int depth)
     case T_ADDR:       result = eval_addr(t, depth + 1);       break;
     case T_DEREF:      result = eval_deref(t, depth + 1);      break;
     case T_POINTER:    result = eval_self(t, depth + 1);       break;
+    case T_ARRAY_TYPE: result = eval_self(t, depth + 1);       break;
     case D_T_VOID:     result = eval_self(t, depth + 1);       break;
     case CPP_INCLUDE:  result = eval_cpp_include(t, depth + 1); break;
     case E_CTX:        result = eval_evaluator_ctx(t, depth + 1); break;
-- 
2.43.0


From 4dc0c76ffcd33ff291d045b5ab32adc625c8144f Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:52 +0000
Subject: [PATCH 28/56] fix: convert the arguments of external functions to
 their parameters' types

---
 src/evaluate.c | 66 ++++++++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 66 insertions(+)

diff --git a/src/evaluate.c b/src/evaluate.c
index e573d28..3f05b4b 100644
--- a/src/evaluate.c
+++ b/src/evaluate.c
@@ -457,6 +457,70 @@ static tree copy_return_value(tree val, tree type, int depth)
     return ret;
 }
 
+static bool is_arithmetic_type(tree type)
+{
+    switch (TYPE(type)) {
+    case D_T_CHAR ... D_T_LONGDOUBLE:
+        return true;
+    default:
+        return false;
+    }
+}
+
+/* Obtain the type of a parameter of a declared function if it is arithmetic,
+ * otherwise return NULL. */
+static tree get_arithmetic_param_type(tree param)
+{
+    tree type;
+
+    if (!is_T_DECL(param) ||
+        (tDECL_DECLS(param) && !is_T_IDENTIFIER(tDECL_DECLS(param))))
+        return NULL;
+
+    type = resolve_decl_specs_to_type(tDECL_SPECS(param));
+
+    if (is_T_IDENTIFIER(type))
+        type = resolve_identifier(type, SCOPE_GLOBAL);
+
+    return type && is_arithmetic_type(type) ? type : NULL;
+}
+
+/* Convert the arguments that are passed to an external function to the types
+ * of its parameters. */
+static void convert_fn_args(tree params, tree args)
+{
+    tree param, arg = args;
+
+    if (!params || !args)
+        return;
+
+    for_each_tree(param, params) {
+        tree type, val, converted;
+
+        arg = list_entry(arg->chain.next, typeof(*arg), chain);
+
+        if (arg == args || is_T_VARIADIC(param))
+            return;
+
+        type = get_arithmetic_param_type(param);
+        val = tFNARG_EXP(arg);
+
+        if (!type)
+            continue;
+
+        if (is_T_LIVE_VAR(val) && (TYPE(tLV_TYPE(val)) == TYPE(type) ||
+                                   !is_arithmetic_type(tLV_TYPE(val))))
+            continue;
+
+        if (!is_T_LIVE_VAR(val) && !is_T_INTEGER(val) && !is_T_FLOAT(val))
+            continue;
+
+        converted = make_live_var(type);
+        assign_live_var(val, converted, val);
+        tFNARG_EXP(arg) = converted;
+    }
+}
+
 static tree eval_fn_call(tree t, int depth)
 {
     /* There are five possibilities here:
@@ -600,6 +664,7 @@ static tree eval_fn_call(tree t, int depth)
             /* Evaluate all arguments before passing into the marshalling
              * function. */
             fn_arg_chain = eval_fn_args(args, depth);
+            convert_fn_args(tFN_ARGS(function), fn_arg_chain);
 
             if (!is_D_T_VOID(tFN_RET_TYPE(function)))
                 ret_lv = make_live_var(tFN_RET_TYPE(function));
@@ -642,6 +707,7 @@ static tree eval_fn_call(tree t, int depth)
         /* Evaluate all arguments before passing into the marshalling
          * function. */
         fn_arg_chain = eval_fn_args(args, depth);
+        convert_fn_args(tFN_ARGS(function_type), fn_arg_chain);
 
         do_ext_call(tLV_VAL(function)->D_T_PTR, fn_arg_chain, ret_lv,
                     is_variadic ? &variadic_pos : NULL);
-- 
2.43.0


From 15078d7e6ecffcec0bfd42e63443be8b8e47098a Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:25 +0000
Subject: [PATCH 29/56] fix: pass integers that exceed the range of an int to
 external functions

---
 src/evaluate.c      | 2 +-
 src/evaluate.h      | 1 +
 src/function-call.c | 8 +++++---
 3 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/evaluate.c b/src/evaluate.c
index 3f05b4b..a6ab4de 100644
--- a/src/evaluate.c
+++ b/src/evaluate.c
@@ -333,7 +333,7 @@ tree make_live_var(tree type)
 /* Return the value of a T_INTEGER, wrapped in the same way as a
  * conversion to a fixed-width type.  Note that mpz_get_si can't be used
  * as it doesn't yield the most significant bit. */
-static signed long int get_integer_val(tree integer)
+signed long int get_integer_val(tree integer)
 {
     unsigned long int val = mpz_get_ui(tINT_VAL(integer));
 
diff --git a/src/evaluate.h b/src/evaluate.h
index 2be051a..41369a6 100644
--- a/src/evaluate.h
+++ b/src/evaluate.h
@@ -17,6 +17,7 @@ const tree get_include_chain(void);
 void __attribute__((noreturn)) eval_die(tree t, const char *format, ...);
 tree find_global_identifiers(const char *prefix);
 tree make_live_var(tree type);
+signed long int get_integer_val(tree integer);
 int get_c_main_return_value(tree t);
 void evaluate(tree t, const char *filename);
 tree evaluate_expr(tree t);
diff --git a/src/function-call.c b/src/function-call.c
index 8502751..494c547 100644
--- a/src/function-call.c
+++ b/src/function-call.c
@@ -94,9 +94,11 @@ void do_ext_call(void *function_address, tree args, tree ret_lv,
                 break;
             case T_INTEGER:
                 {
-                    int *buf = alloca(sizeof(int));
-                    *buf = mpz_get_si(tINT_VAL(arg));
-                    push_arg(types, vals, &n, &ffi_type_sint, buf, should_promote);
+                    /* The value may exceed the range of an int. Note that
+                     * the value of an int is passed in the same way. */
+                    long *buf = alloca(sizeof(long));
+                    *buf = get_integer_val(arg);
+                    push_arg(types, vals, &n, &ffi_type_slong, buf, should_promote);
                     break;
                 }
             case T_FLOAT:
-- 
2.43.0


From 16ff07a1588965cc4c1f7920fd382ed301e0923f Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:38 +0000
Subject: [PATCH 30/56] fix: zero the storage of new objects

Objects with static storage duration that have no initialiser held
whatever malloc returned, in C they are zero.
---
 src/evaluate.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/evaluate.c b/src/evaluate.c
index a6ab4de..269c90c 100644
--- a/src/evaluate.c
+++ b/src/evaluate.c
@@ -317,7 +317,7 @@ tree make_live_var(tree type)
     tree live_var = tree_make(T_LIVE_VAR);
 
     tLV_TYPE(live_var) = type;
-    tLV_VAL(live_var) = malloc(sizeof(*tLV_VAL(live_var)));
+    tLV_VAL(live_var) = calloc(1, sizeof(*tLV_VAL(live_var)));
 
     /* We can not allow the GC to just free the LV_VAL memory as this
      * may not point to memory that has been allocated, for example in
@@ -855,7 +855,7 @@ static tree instantiate_struct(tree struct_decl, int depth, void *base)
 
 static tree alloc_struct(tree struct_decl, int depth)
 {
-    void *base = malloc(tCOMP_DECL_SZ(struct_decl));
+    void *base = calloc(1, tCOMP_DECL_SZ(struct_decl));
 
     track_alloc(base);
 
@@ -865,7 +865,7 @@ static tree alloc_struct(tree struct_decl, int depth)
 static tree alloc_array(tree array_decl, tree base_type, int depth)
 {
     size_t array_sz = get_array_size(array_decl, base_type, depth);
-    void *array_mem = malloc(array_sz);
+    void *array_mem = calloc(1, array_sz);
     tree live_var = instantiate_array(array_decl, base_type, array_mem,
                                       array_sz);
 
-- 
2.43.0


From ef9382dfe3cb3584bd258b189083321d52cdc0d7 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:01 +0000
Subject: [PATCH 31/56] fix: don't swallow the code that follows an attribute
 or asm

The patterns matched up to the last closing parenthesis of the line.
---
 src/lex.m4 | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/lex.m4 b/src/lex.m4
index f322620..629f417 100644
--- a/src/lex.m4
+++ b/src/lex.m4
@@ -25,6 +25,9 @@ static int linenum = 1;
 
 
 static char *sl_buf = NULL;
+
+/* The number of parentheses that are open in an attribute or asm statement. */
+static int annotation_depth;
 CSCRIPT_ONLY
     extern void TARGET()_parser_set_file(const char *fname);
 
@@ -134,13 +137,21 @@ X                               [0-9A-Fa-f]
 
 %x str_lit
 %x compound_start_cond
+%x annotation
 
 %%
-"__attribute__"[ \t]*"((".*"))" /* Ignore attributes */
+"__attribute__"[ \t]*"("         { annotation_depth = 1; BEGIN annotation; } /* Ignore attributes */
 "_Nullable"                     /* Ignore builtin */
 "_Nonnull"                      /* Ignore builtin */
 ("__")?"restrict"               /* Ignore builtin */
-"__asm"("__")?[ \t]*"(".*")"    /* Ignore asm stmts. */
+"__asm"("__")?[ \t]*"("          { annotation_depth = 1; BEGIN annotation; } /* Ignore asm stmts. */
+<annotation>"("                 { annotation_depth++; }
+<annotation>")"                 { if (--annotation_depth == 0) BEGIN 0; }
+<annotation>\"(\\.|[^\\"\n])*\"  /* Parentheses in strings don't count */
+<annotation>[^()"\n]+           /* The rest of an attribute or asm stmt. */
+<annotation>\"                  { lex_err("unterminated string in attribute or asm\n"); }
+<annotation>\n                  { linenum++; colnum = 1; }
+<annotation><<EOF>>             { lex_err("unterminated attribute or asm\n"); }
 "__extension__"                 /* Ignore gcc warning suppression
 * extension. */
 "volatile"                      /* Ignore volatile */
-- 
2.43.0


From c4803e8595025cb9ff84d4700840874c4eafa481 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:36 +0000
Subject: [PATCH 32/56] fix: report characters that don't belong to any token

They were printed and ignored.
---
 src/lex.m4    | 4 +++-
 src/parser.m4 | 1 +
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/lex.m4 b/src/lex.m4
index 629f417..fd30edd 100644
--- a/src/lex.m4
+++ b/src/lex.m4
@@ -220,7 +220,7 @@ L?'(\\.|[^\\'\n])+'	        mpz_init_set_si(LEXLVAL.integer, lex_char(LEXTEXT));
 <str_lit>\\.                    { lex_err("bogus escape '%s' in string\n", LEXTEXT); }
 <str_lit>\n                     { lex_err("newline in string\n"); }
 
-<INITIAL,compound_start_cond>[ \t\r]                         /* skip whitespace */
+<INITIAL,compound_start_cond>[ \t\r\v\f]                         /* skip whitespace */
 <INITIAL,compound_start_cond>"\n"                            {linenum++; colnum = 1;}
 
 "..."                           return ELLIPSIS;
@@ -267,4 +267,6 @@ L?'(\\.|[^\\'\n])+'	        mpz_init_set_si(LEXLVAL.integer, lex_char(LEXTEXT));
 
 "&&"                            return BOOL_OP_AND;
 "||"                            return BOOL_OP_OR;
+
+<INITIAL,compound_start_cond>.  return BAD_CHAR;
 %%
diff --git a/src/parser.m4 b/src/parser.m4
index 9ca531b..b9c97e6 100644
--- a/src/parser.m4
+++ b/src/parser.m4
@@ -119,6 +119,7 @@ ALL_TARGETS
 %token <tree> TYPE_NAME
 %token <string> CONST_BITS
 %token <string> CONST_STRING
+%token BAD_CHAR
 %token <integer> INTEGER;
 %token <ffloat> FLOAT_CST;
 %type <tree> primary_expression
-- 
2.43.0


From c55d4b99631a1d000ef6cccc1808a90f5837516b Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:59 +0000
Subject: [PATCH 33/56] fix: report integer constants with a digit that their
 base doesn't have

08 was 0.
---
 src/lex.m4 | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/lex.m4 b/src/lex.m4
index fd30edd..1678ae6 100644
--- a/src/lex.m4
+++ b/src/lex.m4
@@ -206,7 +206,9 @@ ALL_TARGETS
                                  else
                                      return IDENTIFIER; }
 
--?[0-9]+                          mpz_init_set_str(LEXLVAL.integer, LEXTEXT, 0); return INTEGER;
+-?[0-9]+                          {if (mpz_init_set_str(LEXLVAL.integer, LEXTEXT, 0))
+                                     lex_err("invalid integer constant `%s'\n", LEXTEXT);
+                                 return INTEGER; }
 -?[0-9]+\.[0-9]+                mpf_init_set_str(LEXLVAL.ffloat, LEXTEXT, 10); return FLOAT_CST;
 0x{X}+                          mpz_init_set_str(LEXLVAL.integer, LEXTEXT, 0); return INTEGER;
 L?'(\\.|[^\\'\n])+'	        mpz_init_set_si(LEXLVAL.integer, lex_char(LEXTEXT)); return INTEGER;
-- 
2.43.0


From 523b587b426d9ddb94c01289716fb8b466786bc3 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:03 +0000
Subject: [PATCH 34/56] fix: recognise line markers with any file name

A script whose path contained a + was rejected.
---
 src/lex.m4 | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lex.m4 b/src/lex.m4
index 1678ae6..b7bcc78 100644
--- a/src/lex.m4
+++ b/src/lex.m4
@@ -198,7 +198,7 @@ REPL_ONLY
 "`#'include"[ \t]*"<"({L}|{D}|\.|\/)+">" {LEXLVAL.string = strdup(LEXTEXT);
                                      return C_PRE_INC; }
 CSCRIPT_ONLY
-"`#'"[ \t]*[0-9]+[ \t]*\"({L}|{D}|\-|\.|\/|<|>|\ )+\"[ 1-4]*    {handle_line_marker(LEXTEXT);}
+"`#'"[ \t]*[0-9]+[ \t]*\"[^"\n]+\"[ 1-4]*    {handle_line_marker(LEXTEXT);}
 ALL_TARGETS
 {L}({L}|{D})*                   {LEXLVAL.tree = get_identifier(LEXTEXT);
                                  if (is_typename(LEXLVAL.tree))
-- 
2.43.0


From 1be1b29f59287effee6e03f5779bb4b96ce604ab Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:48 +0000
Subject: [PATCH 35/56] fix: end octal escapes after three digits and report
 unterminated strings

---
 src/lex.m4 | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/lex.m4 b/src/lex.m4
index b7bcc78..75b80e9 100644
--- a/src/lex.m4
+++ b/src/lex.m4
@@ -216,11 +216,12 @@ L?'(\\.|[^\\'\n])+'	        mpz_init_set_si(LEXLVAL.integer, lex_char(LEXTEXT));
 <str_lit>[^\\"\n]*              { sl_append_str(strdup(LEXTEXT)); }
 <str_lit>\\n                    { sl_append_char('\n'); }
 <str_lit>\\t                    { sl_append_char('\t'); }
-<str_lit>\\[0-7]*               { sl_append_char(strtol(LEXTEXT+1, 0, 8)); }
+<str_lit>\\[0-7]{1,3}           { sl_append_char(strtol(LEXTEXT+1, 0, 8)); }
 <str_lit>\\[\\"]                { sl_append_char(LEXTEXT[1]); }
 <str_lit>\"                     { LEXLVAL.string = strdup(sl_buf); BEGIN 0; return CONST_STRING; }
 <str_lit>\\.                    { lex_err("bogus escape '%s' in string\n", LEXTEXT); }
-<str_lit>\n                     { lex_err("newline in string\n"); }
+<str_lit>\\|\n                  { lex_err("newline in string\n"); }
+<str_lit><<EOF>>                { lex_err("unterminated string\n"); }
 
 <INITIAL,compound_start_cond>[ \t\r\v\f]                         /* skip whitespace */
 <INITIAL,compound_start_cond>"\n"                            {linenum++; colnum = 1;}
-- 
2.43.0


From 15feb0cd4fccc50fbdc6f2851d7d5747eeafc889 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:48 +0000
Subject: [PATCH 36/56] fix: don't drop identifiers named inline__

---
 src/lex.m4 | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lex.m4 b/src/lex.m4
index 75b80e9..e590c08 100644
--- a/src/lex.m4
+++ b/src/lex.m4
@@ -155,7 +155,7 @@ X                               [0-9A-Fa-f]
 "__extension__"                 /* Ignore gcc warning suppression
 * extension. */
 "volatile"                      /* Ignore volatile */
-("__")?"inline"("__")?          /* Ignore inlining */
+"inline"|"__inline"("__")?      /* Ignore inlining */
 "auto"				return AUTO;
 "break"				return BREAK;
 "case"				return CASE;
-- 
2.43.0


From f2493772f262eca5c63c78a36947869edbb907fe Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:52 +0000
Subject: [PATCH 37/56] fix: terminate argv with a null pointer

---
 src/cscript.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/cscript.c b/src/cscript.c
index b94cf8f..c2be202 100644
--- a/src/cscript.c
+++ b/src/cscript.c
@@ -77,14 +77,14 @@ static void create_arguments(int argc, char *argv[])
 
     chain = tree_chain_head(argc_decl);
 
-    /* char *argv[n]; */
+    /* char *argv[n + 1]; */
     tree argv_decl = tree_make(T_DECL);
     tree array = tree_make(T_ARRAY);
     tree ptr = tree_make(T_POINTER);
 
     tDECL_SPECS(argv_decl) = tree_chain_head(tree_make(T_CHAR_TS));
 
-    tARRAY_SZ(array) = get_integer(argc);
+    tARRAY_SZ(array) = get_integer(argc + 1);
     tARRAY_DECL(array) = get_identifier("argv");
     tPTR_EXP(ptr) = array;
     tDECL_DECLS(argv_decl) = ptr;
@@ -93,15 +93,16 @@ static void create_arguments(int argc, char *argv[])
 
     /* for (int i = 0; i < n; i++)
      *    argv[i] = <char * address>;
+     * argv[n] = <null pointer>;
      */
-    for (int i = 0; i < argc; i++)
+    for (int i = 0; i <= argc; i++)
     {
         tree assign = tree_make(T_ASSIGN);
         tree array_access = tree_make(T_ARRAY_ACCESS);
         tARR_ACCESS_IDX(array_access) = get_integer(i);
         tARR_ACCESS_OBJ(array_access) = get_identifier("argv");
         tASSIGN_LHS(assign) = array_access;
-        tASSIGN_RHS(assign) = get_addr(argv[i]);
+        tASSIGN_RHS(assign) = get_addr(i < argc ? argv[i] : NULL);
         tree_chain(assign, chain);
     }
 
-- 
2.43.0


From dff77efc193773eaa4533eed1be66266e11e4ba7 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:44 +0000
Subject: [PATCH 38/56] fix: search the -I directories for the headers of
 scripts

---
 src/cscript.c    |  7 +++++--
 src/preprocess.c | 44 ++++++++++++++++++++++++++------------------
 src/preprocess.h |  1 +
 3 files changed, 32 insertions(+), 20 deletions(-)

diff --git a/src/cscript.c b/src/cscript.c
index c2be202..7f147fd 100644
--- a/src/cscript.c
+++ b/src/cscript.c
@@ -3,6 +3,7 @@
 #include "cscriptparser.h"
 #include "evaluate.h"
 #include "gc.h"
+#include "preprocess.h"
 #include "tree-dump.h"
 #include "tree-dump-dot.h"
 #include <string.h>
@@ -28,9 +29,11 @@ static int parse_cscript(const char *fname)
 {
     int parse_result;
     FILE *f;
-    char *command;
+    char *command, *include_dir_opts = preprocessor_include_dir_opts();
 
-    asprintf(&command, "gcc -x c -E " EXTRA_CPP_OPTS " \"%s\"", fname);
+    asprintf(&command, "gcc -x c -E " EXTRA_CPP_OPTS "%s \"%s\"",
+             include_dir_opts, fname);
+    free(include_dir_opts);
 
     if (!command) {
         fprintf(stderr, "Error: could not allocate preprocessor command.\n");
diff --git a/src/preprocess.c b/src/preprocess.c
index a730739..e304386 100644
--- a/src/preprocess.c
+++ b/src/preprocess.c
@@ -10,12 +10,36 @@
 static tree include_dirs;
 GC_STATIC_TREE(include_dirs);
 
+/* Compose the preprocessor options for the include directories.  The
+ * caller frees the string. */
+char *preprocessor_include_dir_opts(void)
+{
+  char *include_dir_opts;
+  size_t include_len = 0;
+  tree i;
+
+  if (include_dirs)
+      for_each_tree(i, include_dirs)
+          include_len += strlen(tSTRING_VAL(i)) + 4;
+
+  include_dir_opts = malloc(include_len + 1);
+  include_dir_opts[0] = '\0';
+
+  if (include_dirs)
+      for_each_tree(i, include_dirs) {
+          strcat(include_dir_opts, " -I ");
+          strcat(include_dir_opts, tSTRING_VAL(i));
+      }
+
+  return include_dir_opts;
+}
+
 FILE *run_cpp(tree include_chain, char *opts, char *line)
 {
   char cpp_file_name[] = "/tmp/bic.cpp.XXXXXX.c";
   char out_file_name[] = "/tmp/bic.cpp.XXXXXX.c";
   char *command;
-  char *include_dir_opts = NULL;
+  char *include_dir_opts;
   FILE *out_file_stream;
   int cpp_file_fd, out_file_fd, ret;
   tree i;
@@ -51,23 +75,7 @@ FILE *run_cpp(tree include_chain, char *opts, char *line)
 
   close(cpp_file_fd);
 
-  if (include_dirs) {
-      size_t include_len = 0;
-
-      for_each_tree(i, include_dirs)
-          include_len += strlen(tSTRING_VAL(i)) + 4;
-
-      include_dir_opts = malloc(include_len + 1);
-      include_dir_opts[0] = '\0';
-
-      for_each_tree(i, include_dirs) {
-          strcat(include_dir_opts, " -I ");
-          strcat(include_dir_opts, tSTRING_VAL(i));
-      }
-  } else {
-      include_dir_opts = malloc(1);
-      include_dir_opts[0] = '\0';
-  }
+  include_dir_opts = preprocessor_include_dir_opts();
 
   ret = asprintf(&command, "gcc %s %s %s > %s", opts, include_dir_opts,
           cpp_file_name, out_file_name);
diff --git a/src/preprocess.h b/src/preprocess.h
index a6050a9..c45bec6 100644
--- a/src/preprocess.h
+++ b/src/preprocess.h
@@ -1,2 +1,3 @@
+char *preprocessor_include_dir_opts(void);
 FILE *run_cpp(tree include_chain, char *opts, char *line);
 void preprocessor_add_include_dir(char *dir);
-- 
2.43.0


From bc97d061723971461ee8bd7474e3524ef4aea9f5 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:03 +0000
Subject: [PATCH 39/56] fix: describe an unsigned short as such

---
 src/c.lang | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/c.lang b/src/c.lang
index 9339579..fb78539 100644
--- a/src/c.lang
+++ b/src/c.lang
@@ -261,7 +261,7 @@
 (defctype D_T_LONG "signed long" "long" "ld" "ival" ffi_type_slong)
 (defctype D_T_LONGLONG "signed long long" "long long" "lld" "ival" ffi_type_slong)
 (defctype D_T_UCHAR "unsigned char" "unsigned char" "u" "ival" ffi_type_uchar)
-(defctype D_T_USHORT "signed short" "unsigned short" "hu" "ival" ffi_type_ushort)
+(defctype D_T_USHORT "unsigned short" "unsigned short" "hu" "ival" ffi_type_ushort)
 (defctype D_T_UINT "unsigned integer" "unsigned int" "u" "ival" ffi_type_uint)
 (defctype D_T_ULONG "unsigned long" "unsigned long" "lu" "ival" ffi_type_ulong)
 (defctype D_T_ULONGLONG "unsigned long long" "unsigned long long" "llu" "ival" ffi_type_ulong)
-- 
2.43.0


From dcf859c82c6db6747f54635bdb6a851cb310f1e7 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:19 +0000
Subject: [PATCH 40/56] fix: record where arrays are declared, so that they can
 be inspected

---
 src/evaluate.c | 1 +
 src/inspect.c  | 3 +++
 2 files changed, 4 insertions(+)

diff --git a/src/evaluate.c b/src/evaluate.c
index 269c90c..c151b35 100644
--- a/src/evaluate.c
+++ b/src/evaluate.c
@@ -770,6 +770,7 @@ static tree instantiate_array(tree array_decl, tree base_type, void *base,
     tDTPTR_EXP(ptr) = base_type;
     live_var = make_live_var(ptr);
     tLV_VAL(live_var)->D_T_PTR = base;
+    tLOCUS(live_var) = tLOCUS(id);
 
     /* These are used by the sizeof() expression to return the correct
      * size. */
diff --git a/src/inspect.c b/src/inspect.c
index 937dccc..19d929b 100644
--- a/src/inspect.c
+++ b/src/inspect.c
@@ -64,6 +64,9 @@ static void print_object_type(tree inspect_id, tree resolved_object)
 
 static void print_object_locus(tree inspect_id, tree resolved_object)
 {
+    if (!tLOCUS(resolved_object).file)
+        return;
+
     printf("%s was declared at: %s:%ld\n", tID_STR(inspect_id),
            tID_STR(tLOCUS(resolved_object).file),
            tLOCUS(resolved_object).line_no);
-- 
2.43.0


From 3d559e80f829b0e3e23d86758c28e8ee427cbef1 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:06 +0000
Subject: [PATCH 41/56] fix: accept typedefs in the REPL

---
 src/repl.c     |  5 ++++-
 src/typename.c | 17 +++++++++++++++++
 src/typename.h |  2 ++
 3 files changed, 23 insertions(+), 1 deletion(-)

diff --git a/src/repl.c b/src/repl.c
index 29406c3..dd2984a 100644
--- a/src/repl.c
+++ b/src/repl.c
@@ -420,9 +420,12 @@ static tree repl_parse_line(char *line)
      * If not, then we copy the line to the end of a small C file that
      * has all the include statments from `inline_chain' before it,
      * preprocess it and then parse that as the tree to be
-     * evaluated. */
+     * evaluated.  As the line is parsed again, the first pass must not
+     * declare any type names. */
 
+    inhibit_typenames();
     stmt = repl_do_parse(line);
+    enable_typenames();
 
     if (!stmt)
         return NULL;
diff --git a/src/typename.c b/src/typename.c
index edc5b79..2376f56 100644
--- a/src/typename.c
+++ b/src/typename.c
@@ -10,6 +10,8 @@ GC_STATIC_TREE(include_type_names);
 
 static int in_include_file = 0;
 
+static int typenames_inhibited = 0;
+
 static void __add_typename(tree typename)
 {
     tree new_typename = get_identifier(tID_STR(typename));
@@ -19,6 +21,9 @@ static void __add_typename(tree typename)
 
 void add_typename(tree typename_decl)
 {
+    if (typenames_inhibited)
+        return;
+
     if (is_T_IDENTIFIER(typename_decl)) {
         __add_typename(typename_decl);
         return;
@@ -38,6 +43,18 @@ void typename_unset_include_file(void)
     in_include_file = 0;
 }
 
+/* Don't declare the names of typedefs while code is parsed that will not be
+ * evaluated. */
+void inhibit_typenames(void)
+{
+    typenames_inhibited = 1;
+}
+
+void enable_typenames(void)
+{
+    typenames_inhibited = 0;
+}
+
 void reset_include_typenames(void)
 {
     include_type_names = tree_make(CHAIN_HEAD);
diff --git a/src/typename.h b/src/typename.h
index cd9af85..aa52a26 100644
--- a/src/typename.h
+++ b/src/typename.h
@@ -4,5 +4,7 @@ void typename_set_include_file(void);
 void typename_unset_include_file(void);
 void reset_include_typenames(void);
 void add_typename(tree typename);
+void inhibit_typenames(void);
+void enable_typenames(void);
 void typename_init(void);
 int is_typename(tree typename);
-- 
2.43.0


From 061a39a750fbf512ccab4f686a1ae1613710f56b Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:12 +0000
Subject: [PATCH 42/56] fix: name the file of the offending construct in errors

---
 src/evaluate.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/evaluate.c b/src/evaluate.c
index c151b35..5f46141 100644
--- a/src/evaluate.c
+++ b/src/evaluate.c
@@ -119,7 +119,13 @@ static void ctx_backtrace(void)
 
 void __attribute__((noreturn)) eval_die(tree t, const char *format, ...)
 {
-    fprintf(stderr, "%s:%zu:%zu: error: ", current_filename, t->locus.line_no,
+    const char *filename = current_filename;
+
+    /* The code may have been included from another file. */
+    if (tLOCUS(t).file)
+        filename = tID_STR(tLOCUS(t).file);
+
+    fprintf(stderr, "%s:%zu:%zu: error: ", filename, t->locus.line_no,
             t->locus.column_no);
     va_list args;
     va_start(args, format);
-- 
2.43.0


From 97eec7cd0d144f21c949ac52813029e69d4827f0 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:22 +0000
Subject: [PATCH 43/56] fix: don't merge the values of a node in dot dumps

---
 src/gendot.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/gendot.cpp b/src/gendot.cpp
index e644d86..924f9a6 100644
--- a/src/gendot.cpp
+++ b/src/gendot.cpp
@@ -44,13 +44,14 @@ static void outputTreeType(FILE *f, const struct TreeType &type)
             fprintf(f, "        }\n");
         } else {
             fprintf(f, "        tree_print_indent(depth);\n");
-            fprintf(f, "        fprintf(stderr, \"tree_%%p_val [label=\\\"\", head);\n");
+            fprintf(f, "        fprintf(stderr, \"tree_%%p_%s [label=\\\"\", head);\n",
+                    prop.first.c_str());
             fprintf(f, "        tree_dump_%s(head, %s(head), DOT);\n",
                     prop.second.baseType.name.c_str(), type.getPropAccessor(prop.first).c_str());
             fprintf(f, "        fprintf(stderr, \"\\\"];\\n\");\n");
             fprintf(f, "        tree_print_indent(depth);\n");
-            fprintf(f, "        fprintf(stderr, \"tree_%%p -> tree_%%p_val [label=\\\"%s\\\"];\\n\", head, head);\n",
-                    prop.first.c_str());
+            fprintf(f, "        fprintf(stderr, \"tree_%%p -> tree_%%p_%s [label=\\\"%s\\\"];\\n\", head, head);\n",
+                    prop.first.c_str(), prop.first.c_str());
         }
     }
 
-- 
2.43.0


From 44dae5056c352584e54305ca3df9c77111b035b8 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:53 +0000
Subject: [PATCH 44/56] fix: escape strings in dot dumps

---
 src/tree-dump-primitives.h | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/tree-dump-primitives.h b/src/tree-dump-primitives.h
index c134a9c..0c7068f 100644
--- a/src/tree-dump-primitives.h
+++ b/src/tree-dump-primitives.h
@@ -29,8 +29,15 @@ static inline void tree_dump_string(tree t, const char *s, enum DUMP_TYPE dt)
 {
     if (dt == TEXTUAL)
         fprintf(stderr, "\"%s\"", s);
-    else
-        fprintf(stderr, "%s", s);
+    else {
+        /* The string is part of a quoted label. */
+        for (; *s; s++) {
+            if (*s == '"' || *s == '\\')
+                fputc('\\', stderr);
+
+            fputc(*s, stderr);
+        }
+    }
 }
 
 static inline void tree_dump_jmp_buf(tree t, jmp_buf b, enum DUMP_TYPE dt)
-- 
2.43.0


From 715383eac8fbdc37fba1fcacbdb5193511d40947 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:32 +0000
Subject: [PATCH 45/56] fix: don't read what a dead completion process didn't
 send

---
 src/repl.c | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/repl.c b/src/repl.c
index dd2984a..2bb3eaa 100644
--- a/src/repl.c
+++ b/src/repl.c
@@ -254,9 +254,8 @@ static char **recieve_matches(int fd)
     size_t n;
     int i;
 
-    read(fd, &n, sizeof(n));
-
-    if (!n)
+    /* The process that evaluates the object may have died. */
+    if (read(fd, &n, sizeof(n)) != sizeof(n) || !n)
         return NULL;
 
     ret = malloc(sizeof(*ret) * (n + 1));
@@ -309,7 +308,7 @@ static char **bic_completion(const char *text, int start, int end)
 
             live_compound = get_compound_completion_object(comp_access);
 
-            if (is_T_LIVE_COMPOUND(live_compound))
+            if (live_compound && is_T_LIVE_COMPOUND(live_compound))
                 local_matches = do_compound_completion(comp_access,
                                                        text, live_compound);
 
-- 
2.43.0


From 2d30ff68b703f570ef1c4606ba9145d892b56a14 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:42 +0000
Subject: [PATCH 46/56] fix: offer the members of structures and unions as
 completions

---
 src/repl.c | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/repl.c b/src/repl.c
index 2bb3eaa..2f57cd6 100644
--- a/src/repl.c
+++ b/src/repl.c
@@ -110,6 +110,8 @@ static int split_compound_access_text(const char *text,
     return 1;
 }
 
+static tree repl_do_parse(char *line);
+
 static tree get_compound_completion_object(struct completion_comp_access comp_access)
 {
     char *comp_obj_expr = strdup(comp_access.obj_expr);
@@ -123,16 +125,12 @@ static tree get_compound_completion_object(struct completion_comp_access comp_ac
      * expression. */
     comp_obj_expr = concat_strings(comp_obj_expr, ";");
 
-    YY_BUFFER_STATE lex_buffer = repl_scan_string(comp_obj_expr);
-    inhibit_gc();
-    int parse_result = replparse();
-    enable_gc();
-    repl_delete_buffer(lex_buffer);
+    tree expr = repl_do_parse(comp_obj_expr);
 
-    if (parse_result)
+    if (!expr)
         return NULL;
 
-    return evaluate_expr(repl_parse_head);
+    return evaluate_expr(expr);
 }
 
 void match_identifiers_for_idmap(tree chain, tree idmap,
-- 
2.43.0


From 4c568b9bb4eca872907f438268de52763e111ef7 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:47 +0000
Subject: [PATCH 47/56] fix: report an operand without a value instead of
 crashing

---
 src/evaluate.c | 21 ++++++++-------------
 1 file changed, 8 insertions(+), 13 deletions(-)

diff --git a/src/evaluate.c b/src/evaluate.c
index 5f46141..62dba0b 100644
--- a/src/evaluate.c
+++ b/src/evaluate.c
@@ -122,11 +122,11 @@ void __attribute__((noreturn)) eval_die(tree t, const char *format, ...)
     const char *filename = current_filename;
 
     /* The code may have been included from another file. */
-    if (tLOCUS(t).file)
+    if (t && tLOCUS(t).file)
         filename = tID_STR(tLOCUS(t).file);
 
-    fprintf(stderr, "%s:%zu:%zu: error: ", filename, t->locus.line_no,
-            t->locus.column_no);
+    fprintf(stderr, "%s:%zu:%zu: error: ", filename,
+            t ? t->locus.line_no : 0, t ? t->locus.column_no : 0);
     va_list args;
     va_start(args, format);
     vfprintf(stderr, format, args);
@@ -1539,9 +1539,8 @@ static tree eval_negate(tree t, int depth)
 {
     tree ret = tree_make(T_INTEGER);
     tree intval;
-    tree exp = __evaluate_1(tNEGATE_EXP(t), depth + 1);
 
-    intval = convert_to_comparable_type(exp, depth);
+    intval = convert_to_comparable_type(tNEGATE_EXP(t), depth + 1);
 
     if (!mpz_cmp_ui(tINT_VAL(intval), 0))
         mpz_init_set_ui(tINT_VAL(ret), 1);
@@ -2188,9 +2187,7 @@ static tree eval_loop_for(tree t, int depth)
 
         /* An omitted condition is always true. */
         if (!is_T_EMPTY(tFLOOP_COND(t))) {
-            cond_result = __evaluate_1(tFLOOP_COND(t), depth + 1);
-
-            cond_result = convert_to_comparable_type(cond_result, depth + 1);
+            cond_result = convert_to_comparable_type(tFLOOP_COND(t), depth + 1);
 
             if (!is_T_INTEGER(cond_result))
                 eval_die(t, "Unknown condition result");
@@ -2219,10 +2216,8 @@ static tree eval_loop_while(tree t, int depth)
 {
     do {
 
-        tree result, cond_result = __evaluate_1(tWLOOP_COND(t),
-                                                depth + 1);
-
-        cond_result = convert_to_comparable_type(cond_result, depth);
+        tree result,
+            cond_result = convert_to_comparable_type(tWLOOP_COND(t), depth + 1);
 
         if (!is_T_INTEGER(cond_result))
             eval_die(t, "Unknown condition result");
@@ -2567,7 +2562,7 @@ static tree eval_array_access(tree t, int depth)
         index = make_int_from_live_var(index);
 
     if (!is_T_INTEGER(index))
-        eval_die(index, "Unknown index type\n");
+        eval_die(t, "Unknown index type\n");
 
     idx = get_integer_val(index);
 
-- 
2.43.0


From b6e380b4914395db8caf04022fb33312ffbe1a8a Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:47 +0000
Subject: [PATCH 48/56] fix: report a division by zero instead of crashing

---
 src/evaluate.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/evaluate.c b/src/evaluate.c
index 62dba0b..1cea059 100644
--- a/src/evaluate.c
+++ b/src/evaluate.c
@@ -1763,6 +1763,9 @@ static tree eval_div(tree t, int depth)
     if (!(is_T_INTEGER(left) && is_T_INTEGER(right)))
         eval_die(t, "Could not subtract to non integer type\n");
 
+    if (!mpz_sgn(tINT_VAL(right)))
+        eval_die(t, "Division by zero\n");
+
     mpz_tdiv_q(tINT_VAL(ret), tINT_VAL(left), tINT_VAL(right));
 
     return ret;
@@ -1785,6 +1788,9 @@ static tree eval_mod(tree t, int depth)
     if (!(is_T_INTEGER(left) && is_T_INTEGER(right)))
         eval_die(t, "Could not modulus to non integer type\n");
 
+    if (!mpz_sgn(tINT_VAL(right)))
+        eval_die(t, "Division by zero\n");
+
     mpz_tdiv_r(tINT_VAL(ret), tINT_VAL(left), tINT_VAL(right));
 
     return ret;
-- 
2.43.0


From dc583fb8b3065d840125e2c375d0f6266386bdf3 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:47 +0000
Subject: [PATCH 49/56] fix: report a call of something that is not a function

---
 src/evaluate.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/evaluate.c b/src/evaluate.c
index 1cea059..3d4958b 100644
--- a/src/evaluate.c
+++ b/src/evaluate.c
@@ -726,7 +726,7 @@ static tree eval_fn_call(tree t, int depth)
         return handler(tFNCALL_ARGS(t));
     }
 
-    return NULL;
+    eval_die(t, "Attempted to call something that isn't a function\n");
 }
 
 static void make_and_map_live_var(tree id, tree type)
-- 
2.43.0


From 81acf8dec7e605b3a849fd13e071d343afceaeea Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:47 +0000
Subject: [PATCH 50/56] fix: let the first mention of a structure declare its
 incomplete type

---
 src/evaluate.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/evaluate.c b/src/evaluate.c
index 3d4958b..701b3cd 100644
--- a/src/evaluate.c
+++ b/src/evaluate.c
@@ -2380,8 +2380,10 @@ static tree eval_decl_compound(tree t, int depth)
     if (!tCOMP_DECL_DECLS(t)) {
         tree ret = resolve_compound(t, SCOPE_GLOBAL);
 
-        if (!ret)
-            return handle_forward_decl(t);
+        if (!ret) {
+            handle_forward_decl(t);
+            ret = resolve_compound(t, SCOPE_CURRENT_CTX);
+        }
 
         return ret;
     }
-- 
2.43.0


From 4e0f83210e8b006040d7317cd60752b5e94c2ada Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:47 +0000
Subject: [PATCH 51/56] fix: report declarations of objects that can not exist

---
 src/evaluate.c | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/evaluate.c b/src/evaluate.c
index 701b3cd..631d4eb 100644
--- a/src/evaluate.c
+++ b/src/evaluate.c
@@ -735,7 +735,7 @@ static void make_and_map_live_var(tree id, tree type)
 
     assert(TYPE(id) == T_IDENTIFIER);
 
-    if (is_E_INCOMP_TYPE(type))
+    if (is_E_INCOMP_TYPE(type) || is_D_T_VOID(type))
         eval_die(id, "Can not create incomplete type %s\n",
                  tID_STR(id));
 
@@ -756,6 +756,9 @@ static size_t get_array_size(tree array_decl, tree base_type, int depth)
     if (!is_T_INTEGER(no_elements))
         eval_die(array_decl, "Attempted to create array with non-constant size\n");
 
+    if (mpz_sgn(tINT_VAL(no_elements)) < 0)
+        eval_die(array_decl, "Attempted to create array with negative size\n");
+
     no_elms = mpz_get_ui(tINT_VAL(no_elements));
 
     return sz_of_each_element * no_elms;
@@ -890,6 +893,10 @@ static tree handle_declarator(tree decl, tree decl_type, int depth)
     assert(decl_type);
 
     if (is_T_DECL_COMPOUND(decl_type) && is_T_IDENTIFIER(decl)) {
+        if (!tCOMP_DECL_EXPANDED(decl_type))
+            eval_die(decl, "Can not create incomplete type %s\n",
+                     tID_STR(decl));
+
         map_identifier(decl, alloc_struct(decl_type, depth));
         return decl;
     }
@@ -2642,7 +2649,9 @@ static tree eval_sizeof(tree t, int depth)
     }
 
     if (is_T_DECL_COMPOUND(type)) {
-        assert(tCOMP_DECL_EXPANDED(type));
+        if (!tCOMP_DECL_EXPANDED(type))
+            eval_die(t, "Incomplete types have no size\n");
+
         tLV_VAL(ret)->D_T_ULONG = tCOMP_DECL_SZ(type);
         return ret;
     }
-- 
2.43.0


From 8f83ecf376103ad3344c9e4e87c3635af4d094f9 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:47 +0000
Subject: [PATCH 52/56] fix: inspect pointers to structures without a tag

---
 src/inspect.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/inspect.c b/src/inspect.c
index 19d929b..a4ec865 100644
--- a/src/inspect.c
+++ b/src/inspect.c
@@ -53,7 +53,7 @@ static void print_object_type(tree inspect_id, tree resolved_object)
 
     object_type = handle_pointer_type(object_type);
 
-    if (is_T_DECL_COMPOUND(object_type))
+    if (is_T_DECL_COMPOUND(object_type) && tCOMP_DECL_ID(object_type))
         object_name = tID_STR(tCOMP_DECL_ID(object_type));
     else
         object_name = tree_description_string(object_type);
-- 
2.43.0


From 2684cd0252490d36983cef70661b7432469cff53 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:47 +0000
Subject: [PATCH 53/56] fix: cast large integers to floating types by their
 value

---
 src/evaluate.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/evaluate.c b/src/evaluate.c
index 631d4eb..5341c79 100644
--- a/src/evaluate.c
+++ b/src/evaluate.c
@@ -2055,7 +2055,15 @@ static tree eval_cast(tree t, int depth)
 
     if (is_T_INTEGER(source)) {
         tree lv = make_live_var(dest_type);
-        assign_integer(lv, source);
+
+        /* A floating value may exceed the range of a signed long. */
+        if (is_D_T_FLOAT(dest_type) || is_D_T_DOUBLE(dest_type))
+            assign_float(lv, source);
+        else if (is_D_T_LONGDOUBLE(dest_type) && mpz_sgn(tINT_VAL(source)) > 0)
+            tLV_VAL(lv)->D_T_LONGDOUBLE = mpz_get_ui(tINT_VAL(source));
+        else
+            assign_integer(lv, source);
+
         return lv;
     }
 
-- 
2.43.0


From bb1c6b97a08167eca0f947eda6a79e63f569889c Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:09 +0000
Subject: [PATCH 54/56] fix: accept headers and scripts that declare nothing

---
 src/parser.m4 | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parser.m4 b/src/parser.m4
index b9c97e6..e139e01 100644
--- a/src/parser.m4
+++ b/src/parser.m4
@@ -1614,9 +1614,9 @@ CSCRIPT_ONLY
     ;
 
     cscript_translation_unit
-    : cscript_external_declaration
+    : %empty
     {
-        TARGET()_parse_head = tree_chain_head($1);
+        TARGET()_parse_head = tree_make(CHAIN_HEAD);
         $$ = TARGET()_parse_head;
     }
     | cscript_translation_unit cscript_external_declaration
-- 
2.43.0


From 96b4292ec3cfeaee88db5b8bc94592cee164acb1 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:51:18 +0000
Subject: [PATCH 55/56] fix: report a second definition of a structure or union
 in one scope

---
 src/evaluate.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/evaluate.c b/src/evaluate.c
index 5341c79..1daefa1 100644
--- a/src/evaluate.c
+++ b/src/evaluate.c
@@ -2412,11 +2412,16 @@ static tree eval_decl_compound(tree t, int depth)
     if (struct_id) {
         tree forward_decl = resolve_compound(t, SCOPE_CURRENT_CTX);
 
-        if (forward_decl) {
+        if (!forward_decl)
+            map_compound(t, t);
+        else if (is_E_INCOMP_TYPE(forward_decl)) {
             tree_copy(forward_decl, t);
             t = forward_decl;
-        } else
-            map_compound(t, t);
+        } else if (tCOMP_DECL_ID(forward_decl) == struct_id)
+            t = forward_decl;
+        else
+            eval_die(struct_id, "Attempted to define already existing "
+                     "compound type %s.\n", tID_STR(struct_id));
     }
 
     /* Don't attempt to expand an already expanded struct. */
-- 
2.43.0


From c0d9f3ced771d90ea80ec08ea507e2d00f4b6432 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:52:18 +0000
Subject: [PATCH 56/56] fix: report two members of one name in a structure or
 union

---
 src/evaluate.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/evaluate.c b/src/evaluate.c
index 1daefa1..c784353 100644
--- a/src/evaluate.c
+++ b/src/evaluate.c
@@ -2383,7 +2383,7 @@ static size_t get_alignment_for_type(tree t, int depth)
 
 static tree eval_decl_compound(tree t, int depth)
 {
-    tree i, struct_id = tCOMP_DECL_ID(t);
+    tree i, struct_id = tCOMP_DECL_ID(t), members = tree_make(CHAIN_HEAD);
     int offset = 0;
     size_t max_member_sz = 0, max_alignment = 1;
 
@@ -2454,6 +2454,11 @@ static tree eval_decl_compound(tree t, int depth)
 
         live_var = resolve_identifier(id, SCOPE_CURRENT_CTX);
 
+        if (__resolve_id(id, members))
+            eval_die(id, "Duplicate member %s.\n", tID_STR(id));
+
+        __map_identifer(id, live_var, members);
+
         /* Calculate the offset of the member within the struct.
          *
          * The algorithm we use to calculate the offset of a given
-- 
2.43.0

