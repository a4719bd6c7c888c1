From 0e0f9325557afb5f1d6129b6222ae41ee717a86e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:35 +0000
Subject: [PATCH 01/33] fix: short-circuit of a negated and/or expression

---
 src/tree.c | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/tree.c b/src/tree.c
index f9d4a2b..15a5a73 100644
--- a/src/tree.c
+++ b/src/tree.c
@@ -1502,8 +1502,18 @@ static enum short_circuit_e short_circuit_for_node(
                     }
                     return SHORT_CIRCUIT_NONE;
                 }
-                case AST_BOOL_NOT:
-                    return short_circuit_for_node(id, !inverted, node->bool_expr.unary.expr);
+                case AST_BOOL_NOT: {
+                    // Invert the result, not the leaves: an inverted AND combines like an OR
+                    enum short_circuit_e result
+                        = short_circuit_for_node(id, inverted, node->bool_expr.unary.expr);
+                    if(result == SHORT_CIRCUIT_PASS) {
+                        return SHORT_CIRCUIT_FAIL;
+                    }
+                    if(result == SHORT_CIRCUIT_FAIL) {
+                        return SHORT_CIRCUIT_PASS;
+                    }
+                    return SHORT_CIRCUIT_NONE;
+                }
                 case AST_BOOL_VARIABLE:
                     return short_circuit_for_attr_var(id, inverted, node->bool_expr.variable);
                 default:
-- 
2.43.0


From 033e499a60a0faf2594bdc88f2b753a6166bef70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:05 +0000
Subject: [PATCH 02/33] fix: attribute bounds of a negated and/or expression

Under a negation an 'and' only bounds the attribute when both sides do
(and an 'or' when either side does); the joins were not swapped, so the
subscription could be filed under a range that misses events it matches.
---
 src/ast.c | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/ast.c b/src/ast.c
index 22a5266..785d508 100644
--- a/src/ast.c
+++ b/src/ast.c
@@ -1378,8 +1378,16 @@ static void get_variable_bound_inner(const struct attr_domain* domain,
                     return;
                 default: abort();
             }
-        case AST_TYPE_BOOL_EXPR:
-            switch(node->bool_expr.op) {
+        case AST_TYPE_BOOL_EXPR: {
+            // Under a negation, De Morgan: an `and` bounds like an `or` and vice versa
+            enum ast_bool_e bool_op = node->bool_expr.op;
+            if(is_reversed && bool_op == AST_BOOL_AND) {
+                bool_op = AST_BOOL_OR;
+            }
+            else if(is_reversed && bool_op == AST_BOOL_OR) {
+                bool_op = AST_BOOL_AND;
+            }
+            switch(bool_op) {
                 case AST_BOOL_LITERAL:
                     return;
                 case AST_BOOL_VARIABLE:
@@ -1591,6 +1599,7 @@ static void get_variable_bound_inner(const struct attr_domain* domain,
                 }
                 default: abort();
             }
+        }
         case AST_TYPE_EQUALITY_EXPR:
             if(domain->attr_var.var != node->equality_expr.attr_var.var) {
                 return;
-- 
2.43.0


From c8152d27341f5cb61cdb9f05c5503c28e76c3496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:22 +0000
Subject: [PATCH 03/33] fix: reject a set expression without any variable
 instead of aborting

---
 src/ast.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/ast.c b/src/ast.c
index 785d508..841f4a7 100644
--- a/src/ast.c
+++ b/src/ast.c
@@ -2661,8 +2661,7 @@ bool all_variables_in_config(const struct config* config, const struct ast_node*
             else if(node->set_expr.right_value.value_type == AST_SET_RIGHT_VALUE_VARIABLE) {
                 return is_variable_valid(node->set_expr.right_value.variable_value);
             }
-            fprintf(stderr, "Invalid set expr");
-            abort();
+            fprintf(stderr, "Invalid set expr without a variable\n");
             return false;
         case AST_TYPE_SPECIAL_EXPR:
             switch(node->special_expr.type) {
-- 
2.43.0


From bb26f29f2f1407536d786a166f17b2eb5e272e47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:22 +0000
Subject: [PATCH 04/33] fix: reject geo expressions when latitude or longitude
 is not declared

---
 src/ast.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ast.c b/src/ast.c
index 841f4a7..9e1ffb5 100644
--- a/src/ast.c
+++ b/src/ast.c
@@ -2665,7 +2665,9 @@ bool all_variables_in_config(const struct config* config, const struct ast_node*
             return false;
         case AST_TYPE_SPECIAL_EXPR:
             switch(node->special_expr.type) {
-                case AST_SPECIAL_GEO: return true;
+                case AST_SPECIAL_GEO:
+                    return is_variable_valid(node->special_expr.geo.latitude_var)
+                        && is_variable_valid(node->special_expr.geo.longitude_var);
                 case AST_SPECIAL_STRING: return is_variable_valid(node->special_expr.string.attr_var);
                 case AST_SPECIAL_FREQUENCY:
                     return is_variable_valid(node->special_expr.frequency.attr_var)
-- 
2.43.0


From ecddf52be8bd135df6d8c1289653747ce69c1790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:38 +0000
Subject: [PATCH 05/33] fix: check attribute types of special expressions in
 all_exprs_valid

---
 src/ast.c | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/ast.c b/src/ast.c
index 9e1ffb5..c0b358e 100644
--- a/src/ast.c
+++ b/src/ast.c
@@ -2559,6 +2559,12 @@ bool is_list_type(enum betree_value_type_e type) {
     return type == BETREE_INTEGER_LIST || type == BETREE_STRING_LIST;
 }
 
+static bool is_attr_of_type(
+    const struct config* config, struct attr_var attr_var, enum betree_value_type_e type)
+{
+    return config->attr_domains[attr_var.var]->bound.value_type == type;
+}
+
 bool all_exprs_valid(const struct config* config, const struct ast_node* node)
 {
     switch(node->type) {
@@ -2624,11 +2630,17 @@ bool all_exprs_valid(const struct config* config, const struct ast_node* node)
         case AST_TYPE_SPECIAL_EXPR:
             switch(node->special_expr.type) {
                 case AST_SPECIAL_FREQUENCY:
-                    return node->special_expr.frequency.type != FREQUENCY_TYPE_INVALID;
+                    return node->special_expr.frequency.type != FREQUENCY_TYPE_INVALID
+                        && is_attr_of_type(config, node->special_expr.frequency.attr_var, BETREE_FREQUENCY_CAPS)
+                        && is_attr_of_type(config, node->special_expr.frequency.now, BETREE_INTEGER);
                 case AST_SPECIAL_SEGMENT:
+                    return is_attr_of_type(config, node->special_expr.segment.attr_var, BETREE_SEGMENTS)
+                        && is_attr_of_type(config, node->special_expr.segment.now, BETREE_INTEGER);
                 case AST_SPECIAL_GEO:
+                    return is_attr_of_type(config, node->special_expr.geo.latitude_var, BETREE_FLOAT)
+                        && is_attr_of_type(config, node->special_expr.geo.longitude_var, BETREE_FLOAT);
                 case AST_SPECIAL_STRING:
-                    return true;
+                    return is_attr_of_type(config, node->special_expr.string.attr_var, BETREE_STRING);
                 default: abort();
             }
         default: abort();
-- 
2.43.0


From 1607c26a4264fcae0aaf945f5b67050a67bda6ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:36 +0000
Subject: [PATCH 06/33] fix: betree_insert checks the types of an expression
 before indexing it

---
 src/ast.c    | 23 +++++++++++++++++++----
 src/ast.h    |  1 +
 src/betree.c |  7 ++++++-
 3 files changed, 26 insertions(+), 5 deletions(-)

diff --git a/src/ast.c b/src/ast.c
index c0b358e..44f315d 100644
--- a/src/ast.c
+++ b/src/ast.c
@@ -2565,10 +2565,14 @@ static bool is_attr_of_type(
     return config->attr_domains[attr_var.var]->bound.value_type == type;
 }
 
-bool all_exprs_valid(const struct config* config, const struct ast_node* node)
+static bool exprs_valid(
+    const struct config* config, const struct ast_node* node, bool check_nullable)
 {
     switch(node->type) {
         case AST_TYPE_IS_NULL_EXPR: {
+            if(!check_nullable) {
+                return true;
+            }
             const struct attr_domain* attr_domain = config->attr_domains[node->is_null_expr.attr_var.var];
             enum betree_value_type_e var_type = attr_domain->bound.value_type;
             return (node->is_null_expr.type == AST_IS_NULL && attr_domain->allow_undefined)
@@ -2605,10 +2609,10 @@ bool all_exprs_valid(const struct config* config, const struct ast_node* node)
                     return true;
                 case AST_BOOL_OR:
                 case AST_BOOL_AND:
-                    return all_exprs_valid(config, node->bool_expr.binary.lhs)
-                        && all_exprs_valid(config, node->bool_expr.binary.rhs);
+                    return exprs_valid(config, node->bool_expr.binary.lhs, check_nullable)
+                        && exprs_valid(config, node->bool_expr.binary.rhs, check_nullable);
                 case AST_BOOL_NOT:
-                    return all_exprs_valid(config, node->bool_expr.unary.expr);
+                    return exprs_valid(config, node->bool_expr.unary.expr, check_nullable);
                 default: abort();
             }
         }
@@ -2647,6 +2651,17 @@ bool all_exprs_valid(const struct config* config, const struct ast_node* node)
     }
 }
 
+bool all_exprs_valid(const struct config* config, const struct ast_node* node)
+{
+    return exprs_valid(config, node, true);
+}
+
+// Like all_exprs_valid, but a null check is valid on any attribute
+bool all_expr_types_valid(const struct config* config, const struct ast_node* node)
+{
+    return exprs_valid(config, node, false);
+}
+
 bool all_variables_in_config(const struct config* config, const struct ast_node* node)
 {
     switch(node->type) {
diff --git a/src/ast.h b/src/ast.h
index acda1a8..a5b947e 100644
--- a/src/ast.h
+++ b/src/ast.h
@@ -342,3 +342,4 @@ bool fast_eq_expr(const struct ast_node* a, const struct ast_node* b);
 bool all_variables_in_config(const struct config* config, const struct ast_node* node);
 bool all_bounded_strings_valid(const struct config* config, const struct ast_node* node);
 bool all_exprs_valid(const struct config* config, const struct ast_node* node);
+bool all_expr_types_valid(const struct config* config, const struct ast_node* node);
diff --git a/src/betree.c b/src/betree.c
index acf6a28..343e9a7 100644
--- a/src/betree.c
+++ b/src/betree.c
@@ -495,8 +495,13 @@ bool betree_insert_with_constants(struct betree* tree,
     }
     assign_str_id(tree->config, node, false);
     assign_ienum_id(tree->config, node, false);
-    sort_lists(node);
     fix_float_with_no_fractions(tree->config, node);
+    if(!all_expr_types_valid(tree->config, node)) {
+        fprintf(stderr, "Invalid expression found %ld\n", id);
+        free_ast_node(node);
+        return false;
+    }
+    sort_lists(node);
     assign_pred_id(tree->config, node);
     struct betree_sub* sub = make_sub(tree->config, id, node);
     return insert_be_tree(tree->config, sub, tree->cnode, NULL);
-- 
2.43.0


From ee0ed5926030470e467e41b98959e0f10c731c57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:36 +0000
Subject: [PATCH 07/33] fix: free the expression when its constants are missing

---
 src/betree.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/betree.c b/src/betree.c
index 343e9a7..3c303dc 100644
--- a/src/betree.c
+++ b/src/betree.c
@@ -491,6 +491,7 @@ bool betree_insert_with_constants(struct betree* tree,
     }
     if(!assign_constants(constant_count, constants, node)) {
         fprintf(stderr, "Can't assign constants %ld\n", id);
+        free_ast_node(node);
         return false;
     }
     assign_str_id(tree->config, node, false);
-- 
2.43.0


From de1956eff2f60da9d1e9c8e5149899d04fe68f0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:12 +0000
Subject: [PATCH 08/33] fix: free the event environment when its validation
 fails

---
 src/betree.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/betree.c b/src/betree.c
index 3c303dc..55b80ee 100644
--- a/src/betree.c
+++ b/src/betree.c
@@ -568,6 +568,7 @@ static bool betree_search_with_event_filled(const struct betree* betree, struct
         = make_environment(betree->config->attr_domain_count, event);
     if(validate_variables(betree->config, variables) == false) {
         fprintf(stderr, "Failed to validate event\n");
+        bfree(variables);
         return false;
     }
     return betree_search_with_preds(betree->config, variables, betree->cnode, report);
-- 
2.43.0


From 850a07ca95408508528ee3036d5646d32f58c8a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:16 +0000
Subject: [PATCH 09/33] fix: betree_exists validates the event like
 betree_search

---
 src/betree.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/betree.c b/src/betree.c
index 55b80ee..09c80d0 100644
--- a/src/betree.c
+++ b/src/betree.c
@@ -577,6 +577,11 @@ static bool betree_search_with_event_filled(const struct betree* betree, struct
 static bool betree_exists_with_event_filled(const struct betree* betree, struct betree_event* event)
 {
     const struct betree_variable** variables = make_environment(betree->config->attr_domain_count, event);
+    if(validate_variables(betree->config, variables) == false) {
+        fprintf(stderr, "Failed to validate event\n");
+        bfree(variables);
+        return false;
+    }
     return betree_exists_with_preds(betree->config, variables, betree->cnode);
 }
 
-- 
2.43.0


From 1c8c6428ca0e4818750858c25726fa7edf5f3b60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:05 +0000
Subject: [PATCH 10/33] fix: reject an expression followed by an unknown
 character

The lexer ended its input at an unknown character, so whatever stood
before it was accepted as the whole expression. '\r' is now white space.
---
 src/lexer.c | 4 ++--
 src/lexer.l | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/lexer.c b/src/lexer.c
index 9661314..031b27a 100644
--- a/src/lexer.c
+++ b/src/lexer.c
@@ -596,7 +596,7 @@ static const flex_int16_t yy_accept[175] =
 static const YY_CHAR yy_ec[256] =
     {   0,
         1,    1,    1,    1,    1,    1,    1,    1,    2,    3,
-        1,    1,    1,    1,    1,    1,    1,    1,    1,    1,
+        1,    1,    2,    1,    1,    1,    1,    1,    1,    1,
         1,    1,    1,    1,    1,    1,    1,    1,    1,    1,
         1,    4,    1,    5,    1,    1,    1,    6,    7,    8,
         9,    1,    1,   10,   11,   12,    1,   13,   13,   13,
@@ -1304,7 +1304,7 @@ SAVE_FLOAT; return TFLOAT;
 case 39:
 YY_RULE_SETUP
 #line 73 "src/lexer.l"
-printf("Unknown token! (%s)\n", yytext); yyterminate();
+printf("Unknown token! (%s)\n", yytext); return (unsigned char)yytext[0];
 	YY_BREAK
 case 40:
 YY_RULE_SETUP
diff --git a/src/lexer.l b/src/lexer.l
index 60b5e95..b77cca7 100644
--- a/src/lexer.l
+++ b/src/lexer.l
@@ -32,7 +32,7 @@
 
 %%
 
-[ \t\n]                     ;
+[ \t\r\n]                   ;
 "within_frequency_cap"      return TOKEN(TWITHINFREQUENCYCAP);
 "segment_within"            return TOKEN(TSEGMENTWITHIN);
 "segment_before"            return TOKEN(TSEGMENTBEFORE);
@@ -70,7 +70,7 @@
 [a-zA-Z_][a-zA-Z0-9_-]*     SAVE_IDENTIFIER; return TIDENTIFIER;
 [0-9]+                      SAVE_INTEGER; return TINTEGER;
 [0-9]+\.[0-9]*              SAVE_FLOAT; return TFLOAT;
-.                           printf("Unknown token! (%s)\n", yytext); yyterminate();
+.                           printf("Unknown token! (%s)\n", yytext); return (unsigned char)yytext[0];
 
 %%
 
-- 
2.43.0


From bcc62dedc48d3bfd466fd3ef5bd7498e18b9131f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:23 +0000
Subject: [PATCH 11/33] fix: 'not' followed by an attribute that starts with
 'in'

---
 src/lexer.c | 197 +++++++++++++++++++++++++++-------------------------
 src/lexer.l |   2 +-
 2 files changed, 102 insertions(+), 97 deletions(-)

diff --git a/src/lexer.c b/src/lexer.c
index 031b27a..e39466d 100644
--- a/src/lexer.c
+++ b/src/lexer.c
@@ -570,7 +570,7 @@ struct yy_trans_info
 	flex_int32_t yy_verify;
 	flex_int32_t yy_nxt;
 	};
-static const flex_int16_t yy_accept[175] =
+static const flex_int16_t yy_accept[176] =
     {   0,
         0,    0,   41,   39,    1,    1,   39,   39,   39,   16,
        17,   18,    9,   37,   14,   10,   12,   36,   36,   36,
@@ -584,13 +584,13 @@ static const flex_int16_t yy_accept[175] =
        36,   33,   36,    0,    0,    0,    0,    0,    0,   36,
 
        36,   36,   23,   36,   36,   36,    0,    0,    0,    0,
-       19,   21,   36,   36,   36,   36,   36,   36,    0,    0,
-       30,   22,   36,   36,   36,    6,   36,   36,   31,    0,
-       36,   36,   36,    8,   36,    0,   36,   36,   36,   36,
-       36,    0,   36,   36,   36,   36,   36,   29,   36,   36,
-        7,   36,   36,   36,   36,   36,   36,   36,   36,   36,
-       36,    4,    3,   36,   36,   36,   36,   36,    5,   36,
-       36,   36,    2,    0
+        0,   21,   36,   36,   36,   36,   36,   36,    0,    0,
+       30,   22,   19,   36,   36,   36,    6,   36,   36,   31,
+        0,   36,   36,   36,    8,   36,    0,   36,   36,   36,
+       36,   36,    0,   36,   36,   36,   36,   36,   29,   36,
+       36,    7,   36,   36,   36,   36,   36,   36,   36,   36,
+       36,   36,    4,    3,   36,   36,   36,   36,   36,    5,
+       36,   36,   36,    2,    0
     } ;
 
 static const YY_CHAR yy_ec[256] =
@@ -634,53 +634,53 @@ static const YY_CHAR yy_meta[42] =
         1
     } ;
 
-static const flex_int16_t yy_base[178] =
+static const flex_int16_t yy_base[180] =
     {   0,
-        0,    0,  196,  197,  197,  197,   37,  189,   36,  197,
-      197,  197,  197,   32,   31,  197,  179,    0,   19,  161,
-      161,  171,  166,   20,  157,   18,   28,  153,  159,  145,
-       52,  197,  182,  197,   51,  197,  181,  170,   47,  197,
-      197,  197,    0,  153,  158,  149,  156,  149,  145,    0,
-      172,   30,  151,    0,  148,  153,  134,  134,  197,  157,
-      165,    0,  131,  131,  130,  146,   40,  140,  159,  158,
-      131,  125,  135,  131,  125,  136,  136,  130,  114,  122,
-       30,  147,  122,  117,  124,  110,    0,  118,  120,  116,
-      104,    0,  114,  108,  103,  110,  106,  106,  111,  104,
-
-       98,  102,  197,  101,  103,   93,   92,  124,   98,  101,
-      197,  197,   88,  105,  104,   86,   84,   93,   79,   87,
-      197,  197,   98,   77,   90,    0,   87,   85,  197,   74,
-       42,   83,   75,    0,   78,   79,   83,   78,   68,   80,
-       84,   73,   76,   63,   72,   64,   62,  197,   64,   68,
-        0,   56,   73,   57,   63,   66,   66,   64,   56,   55,
-       52,    0,    0,   57,   40,   37,   40,   56,    0,   52,
-       53,   39,    0,  197,   81,   83,   64
+        0,    0,  197,  198,  198,  198,   37,  190,   36,  198,
+      198,  198,  198,   32,   31,  198,  180,    0,   19,  162,
+      162,  172,  167,   20,  158,   18,   28,  154,  160,  146,
+       52,  198,  183,  198,   51,  198,  182,  171,   47,  198,
+      198,  198,    0,  154,  159,  150,  157,  150,  146,    0,
+      173,   30,  152,    0,  149,  154,  135,  135,  198,  158,
+      166,    0,  132,  132,  131,  147,   40,  141,  160,  159,
+      132,  126,  136,  132,  126,  137,  137,  131,  115,  123,
+       30,  148,  123,  118,  125,  111,    0,  119,  121,  117,
+      105,    0,  115,  109,  104,  111,  107,  107,  112,  105,
+
+       99,  103,  198,  102,  104,   94,   93,  125,   99,  102,
+        0,  198,   89,  106,  105,   87,   85,   94,   80,   88,
+      198,  198,  198,   99,   78,   91,    0,   88,   86,  198,
+       75,   42,   84,   76,    0,   79,   80,   84,   79,   69,
+       81,   85,   74,   77,   64,   73,   65,   63,  198,   65,
+       69,    0,   57,   74,   58,   64,   67,   67,   65,   57,
+       56,   58,    0,    0,   58,   41,   38,   41,   57,    0,
+       53,   54,   40,    0,  198,   81,   83,   70,   65
     } ;
 
-static const flex_int16_t yy_def[178] =
+static const flex_int16_t yy_def[180] =
     {   0,
-      174,    1,  174,  174,  174,  174,  175,  174,  176,  174,
-      174,  174,  174,  174,  174,  174,  174,  177,  177,  177,
-      177,  177,  177,  177,  177,  177,  177,  177,  177,  174,
-      175,  174,  175,  174,  176,  174,  176,  174,  174,  174,
-      174,  174,  177,  177,  177,  177,  177,  177,  177,  177,
-      177,  177,  177,  177,  177,  177,  177,  177,  174,  174,
-      177,  177,  177,  177,  177,  177,  174,  177,  177,  177,
-      177,  177,  177,  177,  174,  177,  177,  177,  177,  174,
-      174,  177,  174,  174,  177,  177,  177,  177,  174,  177,
-      177,  177,  177,  174,  174,  174,  174,  174,  174,  177,
-
-      177,  177,  174,  177,  177,  177,  174,  174,  174,  174,
-      174,  174,  177,  177,  177,  177,  177,  177,  174,  174,
-      174,  174,  177,  177,  177,  177,  177,  177,  174,  174,
-      177,  177,  177,  177,  177,  174,  177,  177,  177,  177,
-      177,  174,  177,  177,  177,  177,  177,  174,  177,  177,
-      177,  177,  177,  177,  177,  177,  177,  177,  177,  177,
-      177,  177,  177,  177,  177,  177,  177,  177,  177,  177,
-      177,  177,  177,    0,  174,  174,  174
+      175,    1,  175,  175,  175,  175,  176,  175,  177,  175,
+      175,  175,  175,  175,  175,  175,  175,  178,  178,  178,
+      178,  178,  178,  178,  178,  178,  178,  178,  178,  175,
+      176,  175,  176,  175,  177,  175,  177,  175,  175,  175,
+      175,  175,  178,  178,  178,  178,  178,  178,  178,  178,
+      178,  178,  178,  178,  178,  178,  178,  178,  175,  175,
+      178,  178,  178,  178,  178,  178,  175,  178,  178,  178,
+      178,  178,  178,  178,  175,  178,  178,  178,  178,  175,
+      175,  178,  175,  175,  178,  178,  178,  178,  175,  178,
+      178,  178,  178,  175,  175,  175,  175,  175,  175,  178,
+
+      178,  178,  175,  178,  178,  178,  175,  175,  175,  175,
+      179,  175,  178,  178,  178,  178,  178,  178,  175,  175,
+      175,  175,  175,  178,  178,  178,  178,  178,  178,  175,
+      175,  178,  178,  178,  178,  178,  175,  178,  178,  178,
+      178,  178,  175,  178,  178,  178,  178,  178,  175,  178,
+      178,  178,  178,  178,  178,  178,  178,  178,  178,  178,
+      178,  178,  178,  178,  178,  178,  178,  178,  178,  178,
+      178,  178,  178,  178,    0,  175,  175,  175,  175
     } ;
 
-static const flex_int16_t yy_nxt[239] =
+static const flex_int16_t yy_nxt[240] =
     {   0,
         4,    5,    6,    5,    7,    8,    9,   10,   11,   12,
        13,    4,   14,   15,   16,   17,   18,    4,   18,   19,
@@ -688,29 +688,29 @@ static const flex_int16_t yy_nxt[239] =
        25,   26,   18,   18,   18,   27,   28,   18,   29,   18,
        30,   32,   36,   38,   39,   40,   41,   44,   53,   45,
        50,   55,   54,   37,   33,   51,   32,   36,   38,   39,
-       68,   95,  137,   80,   56,   43,   69,   96,   37,   33,
-       81,  173,  172,  171,  170,  169,  168,  167,  166,  165,
-      138,   31,   31,   35,   35,  164,  163,  162,  161,  160,
-      159,  158,  157,  156,  155,  154,  153,  152,  151,  150,
-
-      149,  148,  147,  146,  145,  144,  143,  142,  141,  140,
-      139,  136,  135,  134,  133,  132,  131,  130,  129,  128,
-      127,  126,  125,  124,  123,  122,  121,  120,  119,  118,
-      117,  116,  115,  114,  113,  112,  111,  110,  109,  108,
-      107,  106,  105,  104,  103,  102,  101,  100,   99,   98,
-       97,   94,   93,   92,   91,   90,   89,   88,   87,   86,
-       85,   84,   83,   82,   79,   78,   77,   76,   75,   60,
-       74,   73,   72,   71,   70,   67,   66,   65,   64,   63,
-       62,   61,   60,  174,  174,   59,   58,   57,   52,   49,
-       48,   47,   46,   42,   34,  174,    3,  174,  174,  174,
-
-      174,  174,  174,  174,  174,  174,  174,  174,  174,  174,
-      174,  174,  174,  174,  174,  174,  174,  174,  174,  174,
-      174,  174,  174,  174,  174,  174,  174,  174,  174,  174,
-      174,  174,  174,  174,  174,  174,  174,  174
+       68,   95,  138,   80,   56,  123,   69,   96,   37,   33,
+       81,   43,  174,  173,  172,  171,  170,  169,  168,  167,
+      139,   31,   31,   35,   35,  166,  165,  164,  163,  162,
+      161,  160,  159,  158,  157,  156,  155,  154,  153,  152,
+
+      151,  150,  149,  148,  147,  146,  145,  144,  143,  142,
+      141,  140,  137,  136,  135,  134,  133,  132,  131,  130,
+      129,  128,  127,  126,  125,  124,  122,  121,  120,  119,
+      118,  117,  116,  115,  114,  113,  112,  111,  110,  109,
+      108,  107,  106,  105,  104,  103,  102,  101,  100,   99,
+       98,   97,   94,   93,   92,   91,   90,   89,   88,   87,
+       86,   85,   84,   83,   82,   79,   78,   77,   76,   75,
+       60,   74,   73,   72,   71,   70,   67,   66,   65,   64,
+       63,   62,   61,   60,  175,  175,   59,   58,   57,   52,
+       49,   48,   47,   46,   42,   34,  175,    3,  175,  175,
+
+      175,  175,  175,  175,  175,  175,  175,  175,  175,  175,
+      175,  175,  175,  175,  175,  175,  175,  175,  175,  175,
+      175,  175,  175,  175,  175,  175,  175,  175,  175,  175,
+      175,  175,  175,  175,  175,  175,  175,  175,  175
     } ;
 
-static const flex_int16_t yy_chk[239] =
+static const flex_int16_t yy_chk[240] =
     {   0,
         1,    1,    1,    1,    1,    1,    1,    1,    1,    1,
         1,    1,    1,    1,    1,    1,    1,    1,    1,    1,
@@ -718,26 +718,26 @@ static const flex_int16_t yy_chk[239] =
         1,    1,    1,    1,    1,    1,    1,    1,    1,    1,
         1,    7,    9,   14,   14,   15,   15,   19,   26,   19,
        24,   27,   26,    9,    7,   24,   31,   35,   39,   39,
-       52,   81,  131,   67,   27,  177,   52,   81,   35,   31,
-       67,  172,  171,  170,  168,  167,  166,  165,  164,  161,
-      131,  175,  175,  176,  176,  160,  159,  158,  157,  156,
-      155,  154,  153,  152,  150,  149,  147,  146,  145,  144,
-
-      143,  142,  141,  140,  139,  138,  137,  136,  135,  133,
-      132,  130,  128,  127,  125,  124,  123,  120,  119,  118,
-      117,  116,  115,  114,  113,  110,  109,  108,  107,  106,
-      105,  104,  102,  101,  100,   99,   98,   97,   96,   95,
-       94,   93,   91,   90,   89,   88,   86,   85,   84,   83,
-       82,   80,   79,   78,   77,   76,   75,   74,   73,   72,
-       71,   70,   69,   68,   66,   65,   64,   63,   61,   60,
-       58,   57,   56,   55,   53,   51,   49,   48,   47,   46,
-       45,   44,   38,   37,   33,   30,   29,   28,   25,   23,
-       22,   21,   20,   17,    8,    3,  174,  174,  174,  174,
-
-      174,  174,  174,  174,  174,  174,  174,  174,  174,  174,
-      174,  174,  174,  174,  174,  174,  174,  174,  174,  174,
-      174,  174,  174,  174,  174,  174,  174,  174,  174,  174,
-      174,  174,  174,  174,  174,  174,  174,  174
+       52,   81,  132,   67,   27,  179,   52,   81,   35,   31,
+       67,  178,  173,  172,  171,  169,  168,  167,  166,  165,
+      132,  176,  176,  177,  177,  162,  161,  160,  159,  158,
+      157,  156,  155,  154,  153,  151,  150,  148,  147,  146,
+
+      145,  144,  143,  142,  141,  140,  139,  138,  137,  136,
+      134,  133,  131,  129,  128,  126,  125,  124,  120,  119,
+      118,  117,  116,  115,  114,  113,  110,  109,  108,  107,
+      106,  105,  104,  102,  101,  100,   99,   98,   97,   96,
+       95,   94,   93,   91,   90,   89,   88,   86,   85,   84,
+       83,   82,   80,   79,   78,   77,   76,   75,   74,   73,
+       72,   71,   70,   69,   68,   66,   65,   64,   63,   61,
+       60,   58,   57,   56,   55,   53,   51,   49,   48,   47,
+       46,   45,   44,   38,   37,   33,   30,   29,   28,   25,
+       23,   22,   21,   20,   17,    8,    3,  175,  175,  175,
+
+      175,  175,  175,  175,  175,  175,  175,  175,  175,  175,
+      175,  175,  175,  175,  175,  175,  175,  175,  175,  175,
+      175,  175,  175,  175,  175,  175,  175,  175,  175,  175,
+      175,  175,  175,  175,  175,  175,  175,  175,  175
     } ;
 
 /* The intent behind this definition is that it'll catch
@@ -1078,13 +1078,13 @@ yy_match:
 			while ( yy_chk[yy_base[yy_current_state] + yy_c] != yy_current_state )
 				{
 				yy_current_state = (int) yy_def[yy_current_state];
-				if ( yy_current_state >= 175 )
+				if ( yy_current_state >= 176 )
 					yy_c = yy_meta[yy_c];
 				}
 			yy_current_state = yy_nxt[yy_base[yy_current_state] + yy_c];
 			++yy_cp;
 			}
-		while ( yy_base[yy_current_state] != 197 );
+		while ( yy_base[yy_current_state] != 198 );
 
 yy_find_action:
 		yy_act = yy_accept[yy_current_state];
@@ -1200,6 +1200,11 @@ YY_RULE_SETUP
 return TOKEN(TCOMMA);
 	YY_BREAK
 case 19:
+/* rule 19 can match eol */
+*yy_cp = yyg->yy_hold_char; /* undo effects of setting up yytext */
+YY_LINENO_REWIND_TO(yy_bp + 6);
+yyg->yy_c_buf_p = yy_cp = yy_bp + 6;
+YY_DO_BEFORE_ACTION; /* set up yytext again */
 YY_RULE_SETUP
 #line 53 "src/lexer.l"
 return TOKEN(TNOTIN);
@@ -1311,7 +1316,7 @@ YY_RULE_SETUP
 #line 75 "src/lexer.l"
 ECHO;
 	YY_BREAK
-#line 1315 "src/lexer.c"
+#line 1320 "src/lexer.c"
 case YY_STATE_EOF(INITIAL):
 	yyterminate();
 
@@ -1610,7 +1615,7 @@ static int yy_get_next_buffer (yyscan_t yyscanner)
 		while ( yy_chk[yy_base[yy_current_state] + yy_c] != yy_current_state )
 			{
 			yy_current_state = (int) yy_def[yy_current_state];
-			if ( yy_current_state >= 175 )
+			if ( yy_current_state >= 176 )
 				yy_c = yy_meta[yy_c];
 			}
 		yy_current_state = yy_nxt[yy_base[yy_current_state] + yy_c];
@@ -1639,11 +1644,11 @@ static int yy_get_next_buffer (yyscan_t yyscanner)
 	while ( yy_chk[yy_base[yy_current_state] + yy_c] != yy_current_state )
 		{
 		yy_current_state = (int) yy_def[yy_current_state];
-		if ( yy_current_state >= 175 )
+		if ( yy_current_state >= 176 )
 			yy_c = yy_meta[yy_c];
 		}
 	yy_current_state = yy_nxt[yy_base[yy_current_state] + yy_c];
-	yy_is_jam = (yy_current_state == 174);
+	yy_is_jam = (yy_current_state == 175);
 
 	(void)yyg;
 	return yy_is_jam ? 0 : yy_current_state;
diff --git a/src/lexer.l b/src/lexer.l
index b77cca7..65d892f 100644
--- a/src/lexer.l
+++ b/src/lexer.l
@@ -50,7 +50,7 @@
 "("                         return TOKEN(TLPAREN);
 ")"                         return TOKEN(TRPAREN);
 ","                         return TOKEN(TCOMMA);
-"not in"                    return TOKEN(TNOTIN);
+"not in"/[^a-zA-Z0-9_-]     return TOKEN(TNOTIN);
 "in"                        return TOKEN(TIN);
 "one of"                    return TOKEN(TONEOF);
 "none of"                   return TOKEN(TNONEOF);
-- 
2.43.0


From 8b7e47c82549d9b9765bb3fc55960d6a671b3ff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:55 +0000
Subject: [PATCH 12/33] fix: betree_change_boundaries rejects undeclared
 attributes and mistyped expressions

---
 src/betree.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/betree.c b/src/betree.c
index 09c80d0..e99f9c6 100644
--- a/src/betree.c
+++ b/src/betree.c
@@ -463,10 +463,20 @@ bool betree_change_boundaries(struct betree* tree, const char* expr)
         return false;
     }
     assign_variable_id(tree->config, node);
+    if(!all_variables_in_config(tree->config, node)) {
+        fprintf(stderr, "Missing variable in config\n");
+        free_ast_node(node);
+        return false;
+    }
     assign_str_id(tree->config, node, true);
     assign_ienum_id(tree->config, node, true);
     sort_lists(node);
     fix_float_with_no_fractions(tree->config, node);
+    if(!all_expr_types_valid(tree->config, node)) {
+        fprintf(stderr, "Invalid expression found\n");
+        free_ast_node(node);
+        return false;
+    }
     change_boundaries(tree->config, node);
     free_ast_node(node);
     return true;
-- 
2.43.0


From b88bb6774676762dce47ccef680bcefb17efad25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:24 +0000
Subject: [PATCH 13/33] fix: event values of another type than their attribute
 were read as garbage

An integer given for a float attribute is now converted, and an event
with a value that cannot stand for its attribute's type fails validation.
---
 src/tree.c | 35 ++++++++++++++++++++++++++++++++++-
 1 file changed, 34 insertions(+), 1 deletion(-)

diff --git a/src/tree.c b/src/tree.c
index 15a5a73..75c186b 100644
--- a/src/tree.c
+++ b/src/tree.c
@@ -1879,6 +1879,32 @@ void add_variable(struct betree_variable* variable, struct betree_event* event)
     event->variable_count++;
 }
 
+// The text of an event does not say everything about the type of a value: an integer can stand for
+// a float or an integer enum and an empty list can be a list of anything
+static bool convert_to_domain_type(struct value* value, enum betree_value_type_e type)
+{
+    if(value->value_type == type) {
+        return true;
+    }
+    if(value->value_type == BETREE_INTEGER && type == BETREE_FLOAT) {
+        value->float_value = (double)value->integer_value;
+    }
+    else if(value->value_type == BETREE_INTEGER && type == BETREE_INTEGER_ENUM) {
+        // Same representation, the id of the enum is filled in later
+        value->integer_enum_value.integer = value->integer_value;
+    }
+    else if(is_empty_list(*value)
+        && (type == BETREE_INTEGER_LIST || type == BETREE_STRING_LIST || type == BETREE_SEGMENTS
+            || type == BETREE_FREQUENCY_CAPS)) {
+        // All the lists look the same when empty
+    }
+    else {
+        return false;
+    }
+    value->value_type = type;
+    return true;
+}
+
 void fill_event(const struct config* config, struct betree_event* event)
 {
     for(size_t i = 0; i < event->variable_count; i++) {
@@ -1893,7 +1919,10 @@ void fill_event(const struct config* config, struct betree_event* event)
         }
         pred->attr_var.var = var;
         struct attr_domain* domain = config->attr_domains[var];
-        pred->value.value_type = domain->bound.value_type;
+        if(!convert_to_domain_type(&pred->value, domain->bound.value_type)) {
+            // Left with its own type, validate_variables will refuse it
+            continue;
+        }
         switch(pred->value.value_type) {
             case BETREE_BOOLEAN:
             case BETREE_INTEGER:
@@ -1947,6 +1976,10 @@ bool validate_variables(const struct config* config, const struct betree_variabl
         if(attr_domain->allow_undefined == false && variable == NULL) {
             return false;
         }
+        if(variable != NULL && variable->value.value_type != attr_domain->bound.value_type) {
+            fprintf(stderr, "Wrong type of value for %s\n", attr_domain->attr_var.attr);
+            return false;
+        }
     }
     return true;
 }
-- 
2.43.0


From d62eaa781a4cf184ae03f774cba4e59c43c26376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:38 +0000
Subject: [PATCH 14/33] fix: 'all of' with a repeated value never matched

---
 src/ast.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ast.c b/src/ast.c
index 44f315d..3844a6c 100644
--- a/src/ast.c
+++ b/src/ast.c
@@ -2516,10 +2516,10 @@ void sort_lists(struct ast_node* node)
         case AST_TYPE_LIST_EXPR:
             switch(node->list_expr.value.value_type) {
                 case AST_LIST_VALUE_INTEGER_LIST:
-                    sort_integer_list(node->list_expr.value.integer_list_value);
+                    sort_and_remove_duplicate_integer_list(node->list_expr.value.integer_list_value);
                     return;
                 case AST_LIST_VALUE_STRING_LIST:
-                    sort_string_list(node->list_expr.value.string_list_value);
+                    sort_and_remove_duplicate_string_list(node->list_expr.value.string_list_value);
                     return;
                 default: abort();
             }
-- 
2.43.0


From 67a0d4e3fb2554d387b61184f5303adb9dff1dff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:00 +0000
Subject: [PATCH 15/33] fix: a segment after one with a greater id was not
 found

---
 src/special.c | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/src/special.c b/src/special.c
index 5192ae6..a23bcf0 100644
--- a/src/special.c
+++ b/src/special.c
@@ -43,13 +43,10 @@ bool segment_within(
     int64_t segment_id, int32_t after_seconds, const struct betree_segments* segments, int64_t now)
 {
     for(size_t i = 0; i < segments->size; i++) {
-        if(segments->content[i]->id < segment_id) {
-            continue;
-        }
+        // Nothing says that the segments of an event are sorted by id
         if(segments->content[i]->id == segment_id) {
             return (now - after_seconds) <= (segments->content[i]->timestamp / 1000000);
         }
-        return false;
     }
     return false;
 }
@@ -58,13 +55,10 @@ bool segment_before(
     int64_t segment_id, int32_t before_seconds, const struct betree_segments* segments, int64_t now)
 {
     for(size_t i = 0; i < segments->size; i++) {
-        if(segments->content[i]->id < segment_id) {
-            continue;
-        }
+        // Nothing says that the segments of an event are sorted by id
         if(segments->content[i]->id == segment_id) {
             return (now - before_seconds) > (segments->content[i]->timestamp / 1000000);
         }
-        return false;
     }
     return false;
 }
-- 
2.43.0


From 76e8780378cdf01a18396bb1636163b861338465 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:00 +0000
Subject: [PATCH 16/33] fix: the seconds of a segment expression were truncated
 to 32 bits

---
 src/special.c | 4 ++--
 src/special.h | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/special.c b/src/special.c
index a23bcf0..1394185 100644
--- a/src/special.c
+++ b/src/special.c
@@ -40,7 +40,7 @@ bool within_frequency_caps(const struct betree_frequency_caps* caps,
 }
 
 bool segment_within(
-    int64_t segment_id, int32_t after_seconds, const struct betree_segments* segments, int64_t now)
+    int64_t segment_id, int64_t after_seconds, const struct betree_segments* segments, int64_t now)
 {
     for(size_t i = 0; i < segments->size; i++) {
         // Nothing says that the segments of an event are sorted by id
@@ -52,7 +52,7 @@ bool segment_within(
 }
 
 bool segment_before(
-    int64_t segment_id, int32_t before_seconds, const struct betree_segments* segments, int64_t now)
+    int64_t segment_id, int64_t before_seconds, const struct betree_segments* segments, int64_t now)
 {
     for(size_t i = 0; i < segments->size; i++) {
         // Nothing says that the segments of an event are sorted by id
diff --git a/src/special.h b/src/special.h
index 688aa9c..e1fd560 100644
--- a/src/special.h
+++ b/src/special.h
@@ -14,9 +14,9 @@ bool within_frequency_caps(const struct betree_frequency_caps* caps,
     size_t length,
     int64_t now);
 bool segment_within(
-    int64_t segment_id, int32_t after_seconds, const struct betree_segments* segments, int64_t now);
+    int64_t segment_id, int64_t after_seconds, const struct betree_segments* segments, int64_t now);
 bool segment_before(
-    int64_t segment_id, int32_t before_seconds, const struct betree_segments* segments, int64_t now);
+    int64_t segment_id, int64_t before_seconds, const struct betree_segments* segments, int64_t now);
 bool geo_within_radius(double lat1, double lon1, double lat2, double lon2, double distance);
 bool contains(const char* value, const char* pattern);
 bool starts_with(const char* value, const char* pattern);
-- 
2.43.0


From 6606cf7011a4497109f6993c12a86ba91ea61760 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:04 +0000
Subject: [PATCH 17/33] fix: the value of a frequency cap expression was
 truncated to 32 bits

---
 src/special.c | 2 +-
 src/special.h | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/special.c b/src/special.c
index 1394185..bf85b61 100644
--- a/src/special.c
+++ b/src/special.c
@@ -12,7 +12,7 @@ bool within_frequency_caps(const struct betree_frequency_caps* caps,
     enum frequency_type_e type,
     uint32_t id,
     const struct string_value namespace,
-    uint32_t value,
+    int64_t value,
     size_t length,
     int64_t now)
 {
diff --git a/src/special.h b/src/special.h
index e1fd560..869c28f 100644
--- a/src/special.h
+++ b/src/special.h
@@ -10,7 +10,7 @@ bool within_frequency_caps(const struct betree_frequency_caps* caps,
     enum frequency_type_e type,
     uint32_t id,
     const struct string_value namespace,
-    uint32_t value,
+    int64_t value,
     size_t length,
     int64_t now);
 bool segment_within(
-- 
2.43.0


From eb7d38db4bffd2f37a965eedf89d8efe7290eaa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:19 +0000
Subject: [PATCH 18/33] fix: a frequency cap without 'now' is false, like its
 short-circuit says, even with no caps

---
 src/ast.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/ast.c b/src/ast.c
index 3844a6c..6654da7 100644
--- a/src/ast.c
+++ b/src/ast.c
@@ -511,15 +511,15 @@ static bool match_special_expr(
                     if(is_caps_defined == false) {
                         return false;
                     }
-                    if(caps->size == 0) {
-                        // Optimization from looking at what within_frequency_caps does
-                        return true;
-                    }
                     int64_t now;
                     bool is_now_defined = get_integer_var(f->now.var, preds, &now);
                     if(is_now_defined == false) {
                         return false;
                     }
+                    if(caps->size == 0) {
+                        // Optimization from looking at what within_frequency_caps does
+                        return true;
+                    }
                     return within_frequency_caps(
                         caps, f->type, f->id, f->ns, f->value, f->length, now);
                 }
-- 
2.43.0


From 60083a7a937395d07f5653506b46f4a3a0fa7e21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:07 +0000
Subject: [PATCH 19/33] fix: moving one of two subs with the same id could move
 the other one

---
 src/tree.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/tree.c b/src/tree.c
index 75c186b..fe0290b 100644
--- a/src/tree.c
+++ b/src/tree.c
@@ -494,11 +494,11 @@ bool sub_has_attribute_str(struct config* config, const struct betree_sub* sub,
     return sub_has_attribute(sub, variable_id);
 }
 
-static bool remove_sub(betree_sub_t sub, struct lnode* lnode)
+static bool remove_sub(const struct betree_sub* sub, struct lnode* lnode)
 {
     for(size_t i = 0; i < lnode->sub_count; i++) {
         const struct betree_sub* lnode_sub = lnode->subs[i];
-        if(sub == lnode_sub->id) {
+        if(sub == lnode_sub) {
             for(size_t j = i; j < lnode->sub_count - 1; j++) {
                 lnode->subs[j] = lnode->subs[j + 1];
             }
@@ -523,7 +523,7 @@ static bool remove_sub(betree_sub_t sub, struct lnode* lnode)
 
 static void move(const struct betree_sub* sub, struct lnode* origin, struct lnode* destination)
 {
-    bool isFound = remove_sub(sub->id, origin);
+    bool isFound = remove_sub(sub, origin);
     if(!isFound) {
         fprintf(stderr, "Could not find sub %" PRIu64 "\n", sub->id);
         abort();
-- 
2.43.0


From 2038e8ef22216293a7cead033ad7de911d4da0f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:29 +0000
Subject: [PATCH 20/33] fix: the width of a wide integer domain overflowed

---
 src/tree.c | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/tree.c b/src/tree.c
index fe0290b..cd5f8c9 100644
--- a/src/tree.c
+++ b/src/tree.c
@@ -353,7 +353,7 @@ static size_t domain_bound_diff(const struct attr_domain* attr_domain)
                 return SIZE_MAX;
             }
             else {
-                return (size_t)(llabs(b->imax - b->imin));
+                return (size_t)((uint64_t)b->imax - (uint64_t)b->imin);
             }
         case BETREE_FLOAT:
             if(feq(b->fmin, -DBL_MAX) && feq(b->fmax, DBL_MAX)) {
@@ -723,7 +723,7 @@ static bool splitable_attr_domain(
             if(attr_domain->bound.imin == INT64_MIN || attr_domain->bound.imax == INT64_MAX) {
                 return false;
             }
-            return ((uint64_t)llabs(attr_domain->bound.imax - attr_domain->bound.imin))
+            return ((uint64_t)attr_domain->bound.imax - (uint64_t)attr_domain->bound.imin)
                 < config->max_domain_for_split;
         case BETREE_FLOAT:
             if(feq(attr_domain->bound.fmin, -DBL_MAX) || feq(attr_domain->bound.fmax, DBL_MAX)) {
@@ -905,17 +905,18 @@ static struct value_bounds split_value_bound(struct value_bound bound)
             int64_t start = bound.imin, end = bound.imax;
             lbound.imin = start;
             rbound.imax = end;
-            if(llabs(end - start) > 2) {
-                int64_t middle = start + (end - start) / 2;
+            uint64_t width = (uint64_t)end - (uint64_t)start;
+            if(width > 2) {
+                int64_t middle = start + (int64_t)(width / 2);
                 lbound.imax = middle;
                 rbound.imin = middle;
             }
-            else if(llabs(end - start) == 2) {
+            else if(width == 2) {
                 int64_t middle = start + 1;
                 lbound.imax = middle;
                 rbound.imin = middle;
             }
-            else if(llabs(end - start) == 1) {
+            else if(width == 1) {
                 lbound.imax = start;
                 rbound.imin = end;
             }
-- 
2.43.0


From 6cb1bf589a040a953e69d1fe2e5fd2e4c085f360 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:51 +0000
Subject: [PATCH 21/33] fix: clustering on a float domain narrower than 1 or
 between 1 and 2 aborted

---
 src/tree.c | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/tree.c b/src/tree.c
index cd5f8c9..e8d8fe0 100644
--- a/src/tree.c
+++ b/src/tree.c
@@ -729,8 +729,8 @@ static bool splitable_attr_domain(
             if(feq(attr_domain->bound.fmin, -DBL_MAX) || feq(attr_domain->bound.fmax, DBL_MAX)) {
                 return false;
             }
-            return ((uint64_t)fabs(attr_domain->bound.fmax - attr_domain->bound.fmin))
-                < config->max_domain_for_split;
+            return fabs(attr_domain->bound.fmax - attr_domain->bound.fmin)
+                < (double)config->max_domain_for_split;
         case BETREE_BOOLEAN:
             return true;
         case BETREE_STRING:
@@ -842,7 +842,9 @@ static bool is_atomic(const struct cdir* cdir)
         case(BETREE_INTEGER_LIST):
             return cdir->bound.imin == cdir->bound.imax;
         case(BETREE_FLOAT): {
-            return feq(cdir->bound.fmin, cdir->bound.fmax);
+            // Floats are split in steps of 1, see split_value_bound
+            double width = fabs(cdir->bound.fmax - cdir->bound.fmin);
+            return width < 1 && !feq(width, 1);
         }
         case(BETREE_BOOLEAN): {
             return cdir->bound.bmin == cdir->bound.bmax;
@@ -944,6 +946,11 @@ static struct value_bounds split_value_bound(struct value_bound bound)
                 lbound.fmax = start;
                 rbound.fmin = end;
             }
+            else if(fabs(end - start) > 1) {
+                double middle = start + 1;
+                lbound.fmax = middle;
+                rbound.fmin = middle;
+            }
             else {
                 fprintf(stderr, "%s trying to split an unsplitable bound\n", __func__);
                 abort();
-- 
2.43.0


From 4b5d41ebef42985468ca3e2303e462d8408bb65e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:31 +0000
Subject: [PATCH 22/33] fix: an attribute declared with upper case letters
 could never be used

---
 src/tree.c | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/src/tree.c b/src/tree.c
index e8d8fe0..d2333a1 100644
--- a/src/tree.c
+++ b/src/tree.c
@@ -1,4 +1,3 @@
-#include <ctype.h>
 #include <float.h>
 #include <inttypes.h>
 #include <math.h>
@@ -7,6 +6,7 @@
 #include <stdio.h>
 #include <stdlib.h>
 #include <string.h>
+#include <strings.h>
 
 #include "alloc.h"
 #include "ast.h"
@@ -1642,17 +1642,11 @@ const char* get_attr_for_id(const struct config* config, betree_var_t variable_i
 
 betree_var_t try_get_id_for_attr(const struct config* config, const char* attr)
 {
-    char* copy = bstrdup(attr);
-    for(size_t i = 0; copy[i]; i++) {
-        copy[i] = tolower(copy[i]);
-    }
     for(size_t i = 0; i < config->attr_domain_count; i++) {
-        if(strcmp(config->attr_domains[i]->attr_var.attr, copy) == 0) {
-            bfree(copy);
+        if(strcasecmp(config->attr_domains[i]->attr_var.attr, attr) == 0) {
             return i;
         }
     }
-    bfree(copy);
     return INVALID_VAR;
 }
 
-- 
2.43.0


From d4e0d7913a375f2fd49d4eae7ad4e3d87a8fc9b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:30 +0000
Subject: [PATCH 23/33] fix: the strings of an expression were each checked
 alone against the room left, or not at all

---
 src/ast.c    | 149 ++++++++++++++++++++++++++++-----------------------
 src/config.c |   4 +-
 2 files changed, 83 insertions(+), 70 deletions(-)

diff --git a/src/ast.c b/src/ast.c
index 6654da7..d960144 100644
--- a/src/ast.c
+++ b/src/ast.c
@@ -2708,84 +2708,86 @@ bool all_variables_in_config(const struct config* config, const struct ast_node*
     }
 }
 
-static size_t get_attr_string_bound(const struct config* config, const char* attr)
-{
-    for(size_t i = 0; i < config->attr_domain_count; i++) {
-        if(strcmp(attr, config->attr_domains[i]->attr_var.attr) == 0) {
-            size_t count = config->attr_domains[i]->bound.smax;
-            if(count == SIZE_MAX) {
-                return count;
-            }
-            return count + 1;
-        }
-    }
-    return SIZE_MAX;
-}
+struct new_string {
+    betree_var_t var;
+    const char* string;
+};
 
-static struct string_map* get_string_map_for_attr(const struct config* config, const char* attr)
+struct new_strings {
+    size_t count;
+    struct new_string* strings;
+};
+
+static size_t get_string_count_for_attr(const struct config* config, betree_var_t var)
 {
     for(size_t i = 0; i < config->string_map_count; i++) {
-        struct string_map* string_map = &config->string_maps[i];
-        if(strcmp(attr, string_map->attr_var.attr) == 0) {
-            return string_map;
+        if(config->string_maps[i].attr_var.var == var) {
+            return config->string_maps[i].string_value_count;
         }
     }
-    return NULL;
+    return 0;
 }
 
-static bool str_valid(const struct config* config, const char* attr, const char* string)
+// Whether there is room left for a string, counting the other new strings of the same expression
+static bool str_valid(const struct config* config,
+    struct attr_var attr_var,
+    const char* string,
+    struct new_strings* new_strings)
 {
-    size_t bound = get_attr_string_bound(config, attr);
-    struct string_map* string_map = get_string_map_for_attr(config, attr);
-    size_t space_left = string_map == NULL ? bound : bound - string_map->string_value_count;
-    if(string_map != NULL) {
-        betree_str_t* str = map_get(&string_map->m, string);
-        if(str != NULL) {
-            return true;
+    const struct attr_domain* attr_domain = config->attr_domains[attr_var.var];
+    if(attr_domain->bound.value_type != BETREE_STRING
+        && attr_domain->bound.value_type != BETREE_STRING_LIST) {
+        return true;
+    }
+    if(try_get_id_for_string(config, attr_var, string) != INVALID_STR) {
+        return true;
+    }
+    size_t bound = attr_domain->bound.smax + 1;
+    size_t used = get_string_count_for_attr(config, attr_var.var);
+    for(size_t i = 0; i < new_strings->count; i++) {
+        if(new_strings->strings[i].var == attr_var.var) {
+            if(strcmp(new_strings->strings[i].string, string) == 0) {
+                return true;
+            }
+            used++;
         }
     }
-    bool within_bound = space_left > 0;
-    if(within_bound == false) {
+    if(used >= bound) {
         fprintf(stderr,
             "For attr '%s', string '%s' could not fit within the bound %zu\n",
-            attr,
+            attr_var.attr,
             string,
             bound);
+        return false;
     }
-    return within_bound;
+    struct new_string* strings
+        = brealloc(new_strings->strings, sizeof(*strings) * (new_strings->count + 1));
+    if(strings == NULL) {
+        fprintf(stderr, "%s brealloc failed\n", __func__);
+        abort();
+    }
+    strings[new_strings->count].var = attr_var.var;
+    strings[new_strings->count].string = string;
+    new_strings->strings = strings;
+    new_strings->count++;
+    return true;
 }
 
-static bool strs_valid(
-    const struct config* config, const char* attr, const struct betree_string_list* strings)
+static bool strs_valid(const struct config* config,
+    struct attr_var attr_var,
+    const struct betree_string_list* strings,
+    struct new_strings* new_strings)
 {
-    size_t bound = get_attr_string_bound(config, attr);
-    if(bound == SIZE_MAX) {
-        return true;
-    }
-    struct string_map* string_map = get_string_map_for_attr(config, attr);
-    size_t space_left = string_map == NULL ? bound : bound - string_map->string_value_count;
-    size_t found = 0;
-    if(string_map != NULL) {
-        for(size_t i = 0; i < strings->count; i++) {
-            const char* string = strings->strings[i].string;
-            betree_str_t* str = map_get(&string_map->m, string);
-            if(str != NULL) {
-                found++;
-            }
+    for(size_t i = 0; i < strings->count; i++) {
+        if(!str_valid(config, attr_var, strings->strings[i].string, new_strings)) {
+            return false;
         }
     }
-    size_t needed = strings->count - found;
-    bool within_bound = space_left >= needed;
-    if(within_bound == false) {
-        fprintf(stderr,
-            "For attr '%s', not all strings could not fit within the bound %zu\n",
-            attr,
-            bound);
-    }
-    return within_bound;
+    return true;
 }
 
-bool all_bounded_strings_valid(const struct config* config, const struct ast_node* node)
+static bool bounded_strings_valid(
+    const struct config* config, const struct ast_node* node, struct new_strings* new_strings)
 {
     switch(node->type) {
         case AST_TYPE_IS_NULL_EXPR:
@@ -2794,22 +2796,24 @@ bool all_bounded_strings_valid(const struct config* config, const struct ast_nod
         case AST_TYPE_EQUALITY_EXPR:
             if(node->equality_expr.value.value_type == AST_EQUALITY_VALUE_STRING) {
                 return str_valid(config,
-                    node->equality_expr.attr_var.attr,
-                    node->equality_expr.value.string_value.string);
+                    node->equality_expr.attr_var,
+                    node->equality_expr.value.string_value.string,
+                    new_strings);
             }
             return true;
         case AST_TYPE_BOOL_EXPR:
             switch(node->bool_expr.op) {
                 case AST_BOOL_OR:
                 case AST_BOOL_AND: {
-                    bool lhs = all_bounded_strings_valid(config, node->bool_expr.binary.lhs);
+                    bool lhs
+                        = bounded_strings_valid(config, node->bool_expr.binary.lhs, new_strings);
                     if(lhs == false) {
                         return false;
                     }
-                    return all_bounded_strings_valid(config, node->bool_expr.binary.rhs);
+                    return bounded_strings_valid(config, node->bool_expr.binary.rhs, new_strings);
                 }
                 case AST_BOOL_NOT:
-                    return all_bounded_strings_valid(config, node->bool_expr.unary.expr);
+                    return bounded_strings_valid(config, node->bool_expr.unary.expr, new_strings);
                 case AST_BOOL_VARIABLE:
                 case AST_BOOL_LITERAL:
                     return true;
@@ -2819,20 +2823,24 @@ bool all_bounded_strings_valid(const struct config* config, const struct ast_nod
             if(node->set_expr.left_value.value_type == AST_SET_LEFT_VALUE_VARIABLE
                 && node->set_expr.right_value.value_type == AST_SET_RIGHT_VALUE_STRING_LIST) {
                 return strs_valid(config,
-                    node->set_expr.left_value.variable_value.attr,
-                    node->set_expr.right_value.string_list_value);
+                    node->set_expr.left_value.variable_value,
+                    node->set_expr.right_value.string_list_value,
+                    new_strings);
             }
             if(node->set_expr.right_value.value_type == AST_SET_RIGHT_VALUE_VARIABLE
                 && node->set_expr.left_value.value_type == AST_SET_LEFT_VALUE_STRING) {
                 return str_valid(config,
-                    node->set_expr.right_value.variable_value.attr,
-                    node->set_expr.left_value.string_value.string);
+                    node->set_expr.right_value.variable_value,
+                    node->set_expr.left_value.string_value.string,
+                    new_strings);
             }
             return true;
         case AST_TYPE_LIST_EXPR:
             if(node->list_expr.value.value_type == AST_LIST_VALUE_STRING_LIST) {
-                return strs_valid(
-                    config, node->list_expr.attr_var.attr, node->list_expr.value.string_list_value);
+                return strs_valid(config,
+                    node->list_expr.attr_var,
+                    node->list_expr.value.string_list_value,
+                    new_strings);
             }
             return true;
         case AST_TYPE_SPECIAL_EXPR:
@@ -2841,3 +2849,10 @@ bool all_bounded_strings_valid(const struct config* config, const struct ast_nod
     }
 }
 
+bool all_bounded_strings_valid(const struct config* config, const struct ast_node* node)
+{
+    struct new_strings new_strings = { .count = 0, .strings = NULL };
+    bool valid = bounded_strings_valid(config, node, &new_strings);
+    bfree(new_strings.strings);
+    return valid;
+}
diff --git a/src/config.c b/src/config.c
index 0a9ec96..6f29117 100644
--- a/src/config.c
+++ b/src/config.c
@@ -250,6 +250,7 @@ static void add_string_map(struct attr_var attr_var, struct config* config)
     config->string_maps[config->string_map_count].attr_var.attr = bstrdup(attr_var.attr);
     config->string_maps[config->string_map_count].attr_var.var = attr_var.var;
     config->string_maps[config->string_map_count].string_value_count = 0;
+    map_init(&config->string_maps[config->string_map_count].m);
     config->string_map_count++;
 }
 
@@ -277,9 +278,6 @@ static void add_to_integer_map(struct integer_map* integer_map, int64_t integer)
 
 static void add_to_string_map(struct string_map* string_map, const char* string)
 {
-    if(string_map->string_value_count == 0) {
-        map_init(&string_map->m);
-    }
     map_set(&string_map->m, string, string_map->string_value_count);
     string_map->string_value_count++;
 }
-- 
2.43.0


From bea602a8e8a4ce8b3fb32060d2acac39ba455996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:50 +0000
Subject: [PATCH 24/33] fix: integer enum values that do not fit matched any
 unknown value

---
 src/ast.c | 78 ++++++++++++++++++++++++++++++++++++++++++++++++-------
 1 file changed, 69 insertions(+), 9 deletions(-)

diff --git a/src/ast.c b/src/ast.c
index d960144..679eff7 100644
--- a/src/ast.c
+++ b/src/ast.c
@@ -1,4 +1,5 @@
 #include <ctype.h>
+#include <inttypes.h>
 #include <math.h>
 #include <stdbool.h>
 #include <stdint.h>
@@ -2710,7 +2711,9 @@ bool all_variables_in_config(const struct config* config, const struct ast_node*
 
 struct new_string {
     betree_var_t var;
+    // NULL for the integer of an integer enum
     const char* string;
+    int64_t integer;
 };
 
 struct new_strings {
@@ -2718,6 +2721,19 @@ struct new_strings {
     struct new_string* strings;
 };
 
+static void add_new_string(struct new_string new_string, struct new_strings* new_strings)
+{
+    struct new_string* strings
+        = brealloc(new_strings->strings, sizeof(*strings) * (new_strings->count + 1));
+    if(strings == NULL) {
+        fprintf(stderr, "%s brealloc failed\n", __func__);
+        abort();
+    }
+    strings[new_strings->count] = new_string;
+    new_strings->strings = strings;
+    new_strings->count++;
+}
+
 static size_t get_string_count_for_attr(const struct config* config, betree_var_t var)
 {
     for(size_t i = 0; i < config->string_map_count; i++) {
@@ -2760,16 +2776,54 @@ static bool str_valid(const struct config* config,
             bound);
         return false;
     }
-    struct new_string* strings
-        = brealloc(new_strings->strings, sizeof(*strings) * (new_strings->count + 1));
-    if(strings == NULL) {
-        fprintf(stderr, "%s brealloc failed\n", __func__);
-        abort();
+    struct new_string new_string = { .var = attr_var.var, .string = string };
+    add_new_string(new_string, new_strings);
+    return true;
+}
+
+static size_t get_integer_count_for_attr(const struct config* config, betree_var_t var)
+{
+    for(size_t i = 0; i < config->integer_map_count; i++) {
+        if(config->integer_maps[i].attr_var.var == var) {
+            return config->integer_maps[i].integer_value_count;
+        }
     }
-    strings[new_strings->count].var = attr_var.var;
-    strings[new_strings->count].string = string;
-    new_strings->strings = strings;
-    new_strings->count++;
+    return 0;
+}
+
+// Same as str_valid for the values of an integer enum
+static bool ienum_valid(const struct config* config,
+    struct attr_var attr_var,
+    int64_t integer,
+    struct new_strings* new_strings)
+{
+    const struct attr_domain* attr_domain = config->attr_domains[attr_var.var];
+    if(attr_domain->bound.value_type != BETREE_INTEGER_ENUM) {
+        return true;
+    }
+    if(try_get_id_for_ienum(config, attr_var, integer) != INVALID_IENUM) {
+        return true;
+    }
+    size_t bound = attr_domain->bound.smax + 1;
+    size_t used = get_integer_count_for_attr(config, attr_var.var);
+    for(size_t i = 0; i < new_strings->count; i++) {
+        if(new_strings->strings[i].var == attr_var.var) {
+            if(new_strings->strings[i].integer == integer) {
+                return true;
+            }
+            used++;
+        }
+    }
+    if(used >= bound) {
+        fprintf(stderr,
+            "For attr '%s', integer '%" PRId64 "' could not fit within the bound %zu\n",
+            attr_var.attr,
+            integer,
+            bound);
+        return false;
+    }
+    struct new_string new_string = { .var = attr_var.var, .integer = integer };
+    add_new_string(new_string, new_strings);
     return true;
 }
 
@@ -2800,6 +2854,12 @@ static bool bounded_strings_valid(
                     node->equality_expr.value.string_value.string,
                     new_strings);
             }
+            if(node->equality_expr.value.value_type == AST_EQUALITY_VALUE_INTEGER) {
+                return ienum_valid(config,
+                    node->equality_expr.attr_var,
+                    node->equality_expr.value.integer_value,
+                    new_strings);
+            }
             return true;
         case AST_TYPE_BOOL_EXPR:
             switch(node->bool_expr.op) {
-- 
2.43.0


From 5a0cd75d419fc282bebf31db2cea6495737c3903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:05 +0000
Subject: [PATCH 25/33] fix: only one namespace of a frequency caps attribute
 could be told apart

---
 src/config.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/config.c b/src/config.c
index 6f29117..1b7e4ec 100644
--- a/src/config.c
+++ b/src/config.c
@@ -194,7 +194,7 @@ void add_attr_domain_segments(struct config* config, const char* attr, bool allo
 
 void add_attr_domain_frequency(struct config* config, const char* attr, bool allow_undefined)
 {
-    struct value_bound bound = { .value_type = BETREE_FREQUENCY_CAPS };
+    struct value_bound bound = { .value_type = BETREE_FREQUENCY_CAPS, .smin = 0, .smax = SIZE_MAX - 1 };
     add_attr_domain(config, attr, bound, allow_undefined);
 }
 
-- 
2.43.0


From 086acd1ce111752c237c1b3fe0597aacb230e182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:15 +0000
Subject: [PATCH 26/33] fix: the copy of a special expression lost some of its
 fields

---
 src/clone.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/clone.c b/src/clone.c
index 6213ebf..756f4a9 100644
--- a/src/clone.c
+++ b/src/clone.c
@@ -222,6 +222,8 @@ static struct ast_node* clone_special(betree_pred_t global_id, betree_pred_t mem
             clone->special_expr.frequency.op = orig.frequency.op;
             clone->special_expr.frequency.type = orig.frequency.type;
             clone->special_expr.frequency.value = orig.frequency.value;
+            clone->special_expr.frequency.now = clone_attr_var(orig.frequency.now);
+            clone->special_expr.frequency.id = orig.frequency.id;
             break;
         case AST_SPECIAL_SEGMENT:
             clone->special_expr.segment.attr_var = clone_attr_var(orig.segment.attr_var);
@@ -229,6 +231,7 @@ static struct ast_node* clone_special(betree_pred_t global_id, betree_pred_t mem
             clone->special_expr.segment.op = orig.segment.op;
             clone->special_expr.segment.seconds = orig.segment.seconds;
             clone->special_expr.segment.segment_id = orig.segment.segment_id;
+            clone->special_expr.segment.now = clone_attr_var(orig.segment.now);
             break;
         case AST_SPECIAL_GEO:
             clone->special_expr.geo.has_radius = orig.geo.has_radius;
@@ -236,6 +239,8 @@ static struct ast_node* clone_special(betree_pred_t global_id, betree_pred_t mem
             clone->special_expr.geo.longitude = orig.geo.longitude;
             clone->special_expr.geo.op = orig.geo.op;
             clone->special_expr.geo.radius = orig.geo.radius;
+            clone->special_expr.geo.latitude_var = clone_attr_var(orig.geo.latitude_var);
+            clone->special_expr.geo.longitude_var = clone_attr_var(orig.geo.longitude_var);
             break;
         case AST_SPECIAL_STRING:
             clone->special_expr.string.attr_var = clone_attr_var(orig.string.attr_var);
-- 
2.43.0


From 5a4cb4a868cd2a1afa93c611fec92db09507a342 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:30 +0000
Subject: [PATCH 27/33] fix: expressions that differ compared equal (null
 check, frequency cap id, and/or)

---
 src/ast.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/ast.c b/src/ast.c
index 679eff7..077e08f 100644
--- a/src/ast.c
+++ b/src/ast.c
@@ -2392,6 +2392,7 @@ static bool eq_special_expr(struct ast_special_expr a, struct ast_special_expr b
     switch(a.type) {
         case AST_SPECIAL_FREQUENCY:
             return a.frequency.attr_var.var == b.frequency.attr_var.var
+                && a.frequency.id == b.frequency.id
                 && a.frequency.length == b.frequency.length
                 && a.frequency.ns.var == b.frequency.ns.var
                 && a.frequency.ns.str == b.frequency.ns.str && a.frequency.op == b.frequency.op
@@ -2422,7 +2423,8 @@ bool eq_expr(const struct ast_node* a, const struct ast_node* b)
     }
     switch(a->type) {
         case AST_TYPE_IS_NULL_EXPR:
-            return a->is_null_expr.attr_var.var == b->is_null_expr.attr_var.var;
+            return a->is_null_expr.attr_var.var == b->is_null_expr.attr_var.var
+                && a->is_null_expr.type == b->is_null_expr.type;
         case AST_TYPE_COMPARE_EXPR: {
             return a->compare_expr.attr_var.var == b->compare_expr.attr_var.var
                 && a->compare_expr.op == b->compare_expr.op
@@ -2458,6 +2460,9 @@ bool fast_eq_expr(const struct ast_node* a, const struct ast_node* b)
         return false;
     }
     if(a->type == AST_TYPE_BOOL_EXPR) {
+        if(a->bool_expr.op != b->bool_expr.op) {
+            return false;
+        }
         if(a->bool_expr.op == AST_BOOL_NOT) {
             return a->bool_expr.unary.expr->global_id == b->bool_expr.unary.expr->global_id;
         }
-- 
2.43.0


From 979595426ef514b6886088d2f42e5bba9a2f37e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:19 +0000
Subject: [PATCH 28/33] fix: looking up a string during a search wrote in the
 shared map

---
 src/config.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/config.c b/src/config.c
index 1b7e4ec..5e52cf2 100644
--- a/src/config.c
+++ b/src/config.c
@@ -305,7 +305,8 @@ betree_str_t try_get_id_for_string(
     for(size_t i = 0; i < config->string_map_count; i++) {
         if(config->string_maps[i].attr_var.var == attr_var.var) {
             struct string_map* string_map = string_map = &config->string_maps[i];
-            betree_str_t* str = map_get(&string_map->m, string);
+            // Not map_get, it writes in the map and searches share it
+            betree_str_t* str = map_get_(&string_map->m.base, string);
             if(str != NULL) {
                 return *str;
             }
-- 
2.43.0


From 7ef0c769812846e72cd5ea5f49a874bd1f4a0e86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:19 +0000
Subject: [PATCH 29/33] fix: parsing an event went through a variable shared by
 all threads

---
 src/event_parser.c | 3 ++-
 src/event_parser.y | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/event_parser.c b/src/event_parser.c
index 84e3e00..bb99e63 100644
--- a/src/event_parser.c
+++ b/src/event_parser.c
@@ -84,7 +84,8 @@
     #include "event_parser.h"
     #include "tree.h"
     #include "value.h"
-    struct betree_event *root;
+    // Events can be parsed by many threads at once
+    static __thread struct betree_event *root;
     extern int zzlex();
     void zzerror(void *scanner, const char *s) { (void)scanner; printf("ERROR: %s\n", s); }
 #if defined(__GNUC__)
diff --git a/src/event_parser.y b/src/event_parser.y
index 5c1c2ef..6b63f9f 100644
--- a/src/event_parser.y
+++ b/src/event_parser.y
@@ -9,7 +9,8 @@
     #include "event_parser.h"
     #include "tree.h"
     #include "value.h"
-    struct betree_event *root;
+    // Events can be parsed by many threads at once
+    static __thread struct betree_event *root;
     extern int zzlex();
     void zzerror(void *scanner, const char *s) { (void)scanner; printf("ERROR: %s\n", s); }
 #if defined(__GNUC__)
-- 
2.43.0


From 0bbc592315614a6b62ca562451c3fc57514337b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:26 +0000
Subject: [PATCH 30/33] fix: the parameters of betree_make_with_parameters were
 truncated to 8 bits

---
 src/config.c | 2 +-
 src/config.h | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/config.c b/src/config.c
index 5e52cf2..a4af3a4 100644
--- a/src/config.c
+++ b/src/config.c
@@ -9,7 +9,7 @@
 #include "memoize.h"
 #include "utils.h"
 
-struct config* make_config(uint8_t lnode_max_cap, uint8_t partition_min_size)
+struct config* make_config(uint64_t lnode_max_cap, uint64_t partition_min_size)
 {
     struct config* config = bcalloc(sizeof(*config));
     if(config == NULL) {
diff --git a/src/config.h b/src/config.h
index 229ee66..65ea8e4 100644
--- a/src/config.h
+++ b/src/config.h
@@ -33,13 +33,13 @@ struct integer_map {
     };
 };
 
-struct config* make_config(uint8_t lnode_max_cap, uint8_t partition_min_size);
+struct config* make_config(uint64_t lnode_max_cap, uint64_t partition_min_size);
 struct config* make_default_config();
 void free_config(struct config* config);
 
 struct config {
-    uint8_t lnode_max_cap;
-    uint8_t partition_min_size;
+    uint64_t lnode_max_cap;
+    uint64_t partition_min_size;
     uint32_t max_domain_for_split;
     struct {
         size_t attr_domain_count;
-- 
2.43.0


From 5ee6337706647ccbd853037219545b3facbd96e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:46 +0000
Subject: [PATCH 31/33] fix: the string bound of an attribute that is not a
 string was read uninitialised

---
 src/config.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/config.c b/src/config.c
index a4af3a4..ff4a3f5 100644
--- a/src/config.c
+++ b/src/config.c
@@ -362,7 +362,10 @@ betree_str_t get_id_for_string(struct config* config, struct attr_var attr_var,
     }
     const struct attr_domain* attr_domain
         = get_attr_domain((const struct attr_domain**)config->attr_domains, attr_var.var);
-    if(!always_assign && attr_domain->bound.smax + 1 == string_map->string_value_count) {
+    // Other types don't have that bound, the expression is refused later on
+    bool is_bounded = attr_domain->bound.value_type == BETREE_STRING
+        || attr_domain->bound.value_type == BETREE_STRING_LIST;
+    if(!always_assign && is_bounded && attr_domain->bound.smax + 1 == string_map->string_value_count) {
         return INVALID_STR;
     }
     add_to_string_map(string_map, string);
-- 
2.43.0


From ba450b62b067b79f028d98c8a09cdac50c3e5c52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:05 +0000
Subject: [PATCH 32/33] fix: boundaries of comparisons with the largest
 integers overflow

---
 src/ast.c    |  8 ++++----
 src/betree.c |  4 ++--
 src/utils.c  | 10 ++++++++++
 src/utils.h  |  2 ++
 4 files changed, 18 insertions(+), 6 deletions(-)

diff --git a/src/ast.c b/src/ast.c
index 077e08f..674b498 100644
--- a/src/ast.c
+++ b/src/ast.c
@@ -1722,7 +1722,7 @@ static void get_variable_bound_inner(const struct attr_domain* domain,
                                 dirty->min_dirty = true;
                             }
                             else {
-                                bound->imax = node->compare_expr.value.integer_value - 1;
+                                bound->imax = d64pred(node->compare_expr.value.integer_value);
                                 dirty->max_dirty = true;
                             }
                             break;
@@ -1744,7 +1744,7 @@ static void get_variable_bound_inner(const struct attr_domain* domain,
                     switch(node->compare_expr.value.value_type) {
                         case AST_COMPARE_VALUE_INTEGER:
                             if(is_reversed) {
-                                bound->imin = node->compare_expr.value.integer_value + 1;
+                                bound->imin = d64succ(node->compare_expr.value.integer_value);
                                 dirty->min_dirty = true;
                             }
                             else {
@@ -1774,7 +1774,7 @@ static void get_variable_bound_inner(const struct attr_domain* domain,
                                 dirty->max_dirty = true;
                             }
                             else {
-                                bound->imin = node->compare_expr.value.integer_value + 1;
+                                bound->imin = d64succ(node->compare_expr.value.integer_value);
                                 dirty->min_dirty = true;
                             }
                             break;
@@ -1796,7 +1796,7 @@ static void get_variable_bound_inner(const struct attr_domain* domain,
                     switch(node->compare_expr.value.value_type) {
                         case AST_COMPARE_VALUE_INTEGER:
                             if(is_reversed) {
-                                bound->imax = node->compare_expr.value.integer_value - 1;
+                                bound->imax = d64pred(node->compare_expr.value.integer_value);
                                 dirty->max_dirty = true;
                             }
                             else {
diff --git a/src/betree.c b/src/betree.c
index e99f9c6..c624d7f 100644
--- a/src/betree.c
+++ b/src/betree.c
@@ -189,9 +189,9 @@ static struct value_bound compare_simple_bound(struct compare_value value, enum
         case AST_COMPARE_VALUE_INTEGER: {
             int64_t i = value.integer_value;
             switch(op) {
-                case AST_COMPARE_LT: return inverted ? compare_simple_bound(value, AST_COMPARE_GE, false) : integer_bound(i - 1);
+                case AST_COMPARE_LT: return inverted ? compare_simple_bound(value, AST_COMPARE_GE, false) : integer_bound(d64pred(i));
                 case AST_COMPARE_LE: return inverted ? compare_simple_bound(value, AST_COMPARE_GT, false) : integer_bound(i);
-                case AST_COMPARE_GT: return inverted ? compare_simple_bound(value, AST_COMPARE_LE, false) : integer_bound(i + 1);
+                case AST_COMPARE_GT: return inverted ? compare_simple_bound(value, AST_COMPARE_LE, false) : integer_bound(d64succ(i));
                 case AST_COMPARE_GE: return inverted ? compare_simple_bound(value, AST_COMPARE_LT, false) : integer_bound(i);
                 default: abort();
             }
diff --git a/src/utils.c b/src/utils.c
index 8d8ceca..cffbea5 100644
--- a/src/utils.c
+++ b/src/utils.c
@@ -20,6 +20,16 @@ int64_t d64max(int64_t a, int64_t b)
     return a > b ? a : b;
 }
 
+int64_t d64succ(int64_t a)
+{
+    return a == INT64_MAX ? a : a + 1;
+}
+
+int64_t d64pred(int64_t a)
+{
+    return a == INT64_MIN ? a : a - 1;
+}
+
 uint64_t u64max(uint64_t a, uint64_t b)
 {
     return a > b ? a : b;
diff --git a/src/utils.h b/src/utils.h
index ac20c15..5c74ead 100644
--- a/src/utils.h
+++ b/src/utils.h
@@ -9,6 +9,8 @@
 
 int64_t d64min(int64_t a, int64_t b);
 int64_t d64max(int64_t a, int64_t b);
+int64_t d64succ(int64_t a);
+int64_t d64pred(int64_t a);
 uint64_t u64max(uint64_t a, uint64_t b);
 size_t smin(size_t a, size_t b);
 size_t smax(size_t a, size_t b);
-- 
2.43.0


From 33241f591a68ba303f94548db68189ea4d8ed5db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:22 +0000
Subject: [PATCH 33/33] fix: keep the attributes declared after a subscription
 out of its bitmaps

---
 src/tree.c | 20 ++++++++++----------
 src/tree.h |  2 ++
 2 files changed, 12 insertions(+), 10 deletions(-)

diff --git a/src/tree.c b/src/tree.c
index d2333a1..79d5daa 100644
--- a/src/tree.c
+++ b/src/tree.c
@@ -62,14 +62,13 @@ static enum short_circuit_e try_short_circuit(size_t attr_domains_count,
     return SHORT_CIRCUIT_NONE;
 }
 
-static bool match_sub(size_t attr_domains_count,
-    const struct betree_variable** preds,
+static bool match_sub(const struct betree_variable** preds,
     const struct betree_sub* sub,
     struct report* report,
     struct memoize* memoize,
     const uint64_t* undefined)
 {
-    enum short_circuit_e short_circuit = try_short_circuit(attr_domains_count, &sub->short_circuit, undefined);
+    enum short_circuit_e short_circuit = try_short_circuit(sub->attr_count, &sub->short_circuit, undefined);
     if(short_circuit != SHORT_CIRCUIT_NONE) {
         if(report != NULL) {
             report->shorted++;
@@ -192,7 +191,7 @@ bool sub_is_enclosed(const struct attr_domain** attr_domains, const struct betre
     if(cdir == NULL) {
         return false;
     }
-    if(test_bit(sub->attr_vars, cdir->attr_var.var) == true) {
+    if(sub_has_attribute(sub, cdir->attr_var.var) == true) {
         const struct attr_domain* attr_domain = get_attr_domain(attr_domains, cdir->attr_var.var);
         struct value_bound bound = get_variable_bound(attr_domain, sub->expr);
         switch(attr_domain->bound.value_type) {
@@ -422,7 +421,7 @@ bool insert_be_tree(
     if(cnode->pdir != NULL) {
         float max_score = -DBL_MAX;
         for(size_t i = 0; i < config->attr_domain_count; i++) {
-            if(test_bit(sub->attr_vars, i) == false) {
+            if(sub_has_attribute(sub, i) == false) {
                 continue;
             }
             betree_var_t variable_id = i;
@@ -482,7 +481,7 @@ static bool is_overflowed(const struct lnode* lnode)
 
 bool sub_has_attribute(const struct betree_sub* sub, betree_var_t variable_id)
 {
-    return test_bit(sub->attr_vars, variable_id);
+    return variable_id < sub->attr_count && test_bit(sub->attr_vars, variable_id);
 }
 
 bool sub_has_attribute_str(struct config* config, const struct betree_sub* sub, const char* attr)
@@ -663,7 +662,7 @@ static size_t count_attr_in_lnode(betree_var_t variable_id, const struct lnode*
             fprintf(stderr, "%s, sub is NULL\n", __func__);
             continue;
         }
-        if(test_bit(sub->attr_vars, variable_id) == true) {
+        if(sub_has_attribute(sub, variable_id) == true) {
             count++;
         }
     }
@@ -757,7 +756,7 @@ static bool get_next_highest_score_unused_attr(
     for(size_t i = 0; i < lnode->sub_count; i++) {
         const struct betree_sub* sub = lnode->subs[i];
         for(size_t j = 0; j < config->attr_domain_count; j++) {
-            if(test_bit(sub->attr_vars, j) == false) {
+            if(sub_has_attribute(sub, j) == false) {
                 continue;
             }
             betree_var_t current_variable_id = j;
@@ -1610,6 +1609,7 @@ struct betree_sub* make_sub(struct config* config, betree_sub_t id, struct ast_n
         abort();
     }
     sub->id = id;
+    sub->attr_count = config->attr_domain_count;
     size_t count = config->attr_domain_count / 64 + 1;
     sub->attr_vars = bcalloc(count * sizeof(*sub->attr_vars));
     sub->expr = expr;
@@ -1771,7 +1771,7 @@ bool betree_search_with_preds(const struct config* config,
     for(size_t i = 0; i < subs.count; i++) {
         const struct betree_sub* sub = subs.subs[i];
         report->evaluated++;
-        if(match_sub(config->attr_domain_count, preds, sub, report, &memoize, undefined) == true) {
+        if(match_sub(preds, sub, report, &memoize, undefined) == true) {
             add_sub(sub->id, report);
         }
     }
@@ -1792,7 +1792,7 @@ bool betree_exists_with_preds(const struct config* config, const struct betree_v
     bool result = false;
     for(size_t i = 0; i < subs.count; i++) {
         const struct betree_sub* sub = subs.subs[i];
-        if(match_sub(config->attr_domain_count, preds, sub, NULL, &memoize, undefined) == true) {
+        if(match_sub(preds, sub, NULL, &memoize, undefined) == true) {
             result = true;
             break;
         }
diff --git a/src/tree.h b/src/tree.h
index dbc2fcb..ecf748e 100644
--- a/src/tree.h
+++ b/src/tree.h
@@ -21,6 +21,8 @@ struct short_circuit {
 
 struct betree_sub {
     betree_sub_t id;
+    // How many attributes were declared when it was made, what attr_vars and short_circuit cover
+    size_t attr_count;
     uint64_t* attr_vars;
     const struct ast_node* expr;
     struct short_circuit short_circuit;
-- 
2.43.0

