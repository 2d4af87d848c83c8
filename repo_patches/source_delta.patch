From 226140cf23657cdef2f09171da65476867e56a90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:41 +0000
Subject: [PATCH 01/53] fix: read parenthesised function names behind
 multi-word types

`unsigned int (f)(int x);' was taken for a function named `int', and
`unsigned int (*fp)(int);' was refused.
---
 src/parse.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/parse.cpp b/src/parse.cpp
index 98cdea4..2c10ad2 100644
--- a/src/parse.cpp
+++ b/src/parse.cpp
@@ -236,10 +236,12 @@ namespace /* anonymous */
         switch (utils::str_front(*it))
         {
         case '(':
-            return (check_function(v, p, it)                 || /* TYPE SYMBOL ( ) */
-                    check_function_pointer(v, p, it)         || /* TYPE ( * SYMBOL ) ( ) */
+            /* `TYPE SYMBOL ( )' must be the last one, because the TYPE part of
+             * the others may consist of more than one identifier */
+            return (check_function_pointer(v, p, it)         || /* TYPE ( * SYMBOL ) ( ) */
                     check_function_paren(v, p, it)           || /* TYPE ( SYMBOL ) ( ) */
-                    check_function_paren_pointer(v, p, it));    /* TYPE ( * SYMBOL ( ) ) */
+                    check_function_paren_pointer(v, p, it)   || /* TYPE ( * SYMBOL ( ) ) */
+                    check_function(v, p, it));                  /* TYPE SYMBOL ( ) */
 
         case '[':
             return check_array(v, p, it);
-- 
2.43.0


From 727a4832bb5aaf1cda381b7f75fb5f3f46b48152 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:07 +0000
Subject: [PATCH 02/53] fix: refuse declarations with text behind the closing
 bracket

Patterns only looked at the first and the last tokens, so that input like
`int f(int a), g(int b);', `int a[4], b[5];', a missing semicolon between
two functions, or an attribute behind the parameter list was accepted and
gave garbage.
---
 src/check_pattern.cpp | 72 ++++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 71 insertions(+), 1 deletion(-)

diff --git a/src/check_pattern.cpp b/src/check_pattern.cpp
index 941b545..36b1fe4 100644
--- a/src/check_pattern.cpp
+++ b/src/check_pattern.cpp
@@ -22,6 +22,7 @@
  SOFTWARE.
 **/
 
+#include <string.h>
 #include <iterator>
 #include <string>
 #include <vector>
@@ -48,6 +49,66 @@ typedef struct _seq {
 
 namespace /* anonymous */
 {
+    /* find the bracket that closes the one at `it' */
+    iter_t find_closing_bracket(vstring_t &v, iter_t it)
+    {
+        std::string stack;
+
+        for ( ; it != v.end(); it++) {
+            switch (utils::str_front(*it))
+            {
+            case '(':
+                stack.push_back(')');
+                break;
+
+            case '[':
+                stack.push_back(']');
+                break;
+
+            case ')':
+            case ']':
+                if (stack.back() != utils::str_front(*it)) {
+                    return v.end();
+                }
+
+                stack.pop_back();
+
+                if (stack.empty()) {
+                    return it;
+                }
+                break;
+
+            default:
+                break;
+            }
+        }
+
+        return v.end();
+    }
+
+
+    /* the opening bracket at `it' must belong to the end of the sequence;
+     * arrays can have more than one dimension */
+    bool closed_by_end(vstring_t &v, iter_t it, const seq_t &sq)
+    {
+        const auto last = v.end() - static_cast<int>(strlen(sq.end));
+
+        while ((it = find_closing_bracket(v, it)) != v.end()) {
+            if (it == last) {
+                return true;
+            }
+
+            it++;
+
+            if (*sq.end != ']' || utils::str_front(*it) != '[') {
+                break;
+            }
+        }
+
+        return false;
+    }
+
+
     /* compare vector elements to pattern sequence
      *
      * first element was already checked in `check_prototype()'
@@ -108,7 +169,16 @@ namespace /* anonymous */
             }
         }
 
-        return true;
+        if (it == v.end()) {
+            return true;
+        } else if (*sq.middle == 0) {
+            /* TYPE SYMBOL, nothing else allowed */
+            return false;
+        }
+
+        /* the last opening bracket of the middle part must be
+         * closed by the end part and not somewhere before it */
+        return closed_by_end(v, it - 1, sq);
     }
 
 } /* end anonymous namespace */
-- 
2.43.0


From 49baebf872d073c2ba751d1e2dd5bcff818c67c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:04 +0000
Subject: [PATCH 03/53] fix: refuse empty parameters in every parameter mode

A parameter list ending on a comma was silently shortened, and
-param=skip passed empty parameters through.
---
 src/parameter_names.cpp | 10 ++++++----
 src/parse.cpp           |  3 ++-
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/parameter_names.cpp b/src/parameter_names.cpp
index 5599122..72d86b9 100644
--- a/src/parameter_names.cpp
+++ b/src/parameter_names.cpp
@@ -127,10 +127,7 @@ namespace /* anonymous */
         /* parameter_names == param::read */
         for (vstring_t &v : proto.args_vec)
         {
-            if (v.empty()) {
-                msg = "empty parameter in function `" + proto.symbol + "'";
-                return false;
-            } else if (v.size() == 1) {
+            if (v.size() == 1) {
                 /* check for `...' */
                 if (v.front() == "...") {
                     /* don't append to proto.param_names */
@@ -195,6 +192,11 @@ bool parse::get_parameter_names(proto_t &proto, param::names &parameter_names, s
 
     /* copy parameters */
     for (auto &v : proto.args_vec) {
+        if (v.empty()) {
+            msg = "empty parameter in function `" + proto.symbol + "'";
+            return false;
+        }
+
         append_strings(proto.args, v);
         proto.args += ", ";
     }
diff --git a/src/parse.cpp b/src/parse.cpp
index 2c10ad2..9a5f357 100644
--- a/src/parse.cpp
+++ b/src/parse.cpp
@@ -95,7 +95,8 @@ namespace /* anonymous */
             tokens.push_back(*it);
         }
 
-        if (!tokens.empty()) {
+        /* don't drop the (empty) parameter behind a comma */
+        if (!tokens.empty() || !proto.args_vec.empty()) {
             proto.args_vec.push_back(std::move(tokens));
         }
     }
-- 
2.43.0


From 2a724a5f17537eb159755e25a7f58b415f20fab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:10 +0000
Subject: [PATCH 04/53] fix: keep '...' out of created parameter names

With -param=create the wrappers of variadic functions were given `...' as
an argument of the call.
---
 src/parameter_names.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/parameter_names.cpp b/src/parameter_names.cpp
index 72d86b9..7d38568 100644
--- a/src/parameter_names.cpp
+++ b/src/parameter_names.cpp
@@ -239,10 +239,9 @@ bool parse::create_parameter_names(proto_t &proto, std::string &msg)
             return false;
         }
 
-        /* don't append anything to `...' */
+        /* don't append anything to `...', it isn't a parameter name */
         if (v.size() == 1 && v.front() == "...") {
             proto.args += "... , ";
-            proto.param_names += "... , ";
             continue;
         }
 
-- 
2.43.0


From 693608150aad4b7f36c6732b9da5a0b48d5644a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:16 +0000
Subject: [PATCH 05/53] fix: refuse numbers as symbol names

---
 src/parse.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/parse.cpp b/src/parse.cpp
index 9a5f357..0faff5c 100644
--- a/src/parse.cpp
+++ b/src/parse.cpp
@@ -22,6 +22,7 @@
  SOFTWARE.
 **/
 
+#include <ctype.h>
 #include <algorithm>
 #include <iostream>
 #include <iterator>
@@ -263,7 +264,8 @@ namespace /* anonymous */
             proto.prototype = proto::function;
             proto.saved = false;
 
-            if (!check_prototype(v, proto)) {
+            /* an identifier token can also be a number */
+            if (!check_prototype(v, proto) || ::isdigit(utils::str_front(proto.symbol))) {
                 print_tokens(v);
                 return false;
             }
-- 
2.43.0


From 2e8e66c3796d82c950268aca3a671201703aa837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:08 +0000
Subject: [PATCH 06/53] fix: don't take a part of a type for a parameter or
 symbol name

In the default mode `int f(unsigned int)', `char *const', `struct foo' or
numbers were read as parameters named `int', `const', `foo' or `4'
instead of being refused with the hint to use another mode.
---
 src/check_pattern.cpp   | 24 ++++++++++++++++++++++++
 src/parameter_names.cpp | 29 ++++++++++++++++++++++++-----
 src/parse.cpp           |  7 +++----
 src/parse.hpp           |  1 +
 4 files changed, 52 insertions(+), 9 deletions(-)

diff --git a/src/check_pattern.cpp b/src/check_pattern.cpp
index 36b1fe4..0177d17 100644
--- a/src/check_pattern.cpp
+++ b/src/check_pattern.cpp
@@ -22,6 +22,7 @@
  SOFTWARE.
 **/
 
+#include <ctype.h>
 #include <string.h>
 #include <iterator>
 #include <string>
@@ -184,6 +185,29 @@ namespace /* anonymous */
 } /* end anonymous namespace */
 
 
+/* check if an identifier token can be the name of a symbol or parameter,
+ * i.e. it's not a number and not a part of a type without a name */
+bool parse::is_name(const std::string &s)
+{
+    const char * const keywords[] = {
+        "_Bool", "char", "const", "double", "float", "int", "long", "restrict",
+        "short", "signed", "unsigned", "void", "volatile"
+    };
+
+    if (s.empty() || ::isdigit(s.front())) {
+        return false;
+    }
+
+    for (const auto &e : keywords) {
+        if (s == e) {
+            return false;
+        }
+    }
+
+    return true;
+}
+
+
 vstring_t::iterator parse::find_first_not_pointer_or_ident(vstring_t &v)
 {
     for (auto it = v.begin(); it != v.end(); it++) {
diff --git a/src/parameter_names.cpp b/src/parameter_names.cpp
index 7d38568..aefee81 100644
--- a/src/parameter_names.cpp
+++ b/src/parameter_names.cpp
@@ -67,6 +67,22 @@ namespace /* anonymous */
     }
 
 
+    /* check if the tokens in front of a name contain a type, because
+     * in `const foo' or `struct foo' the last token is part of the type */
+    bool has_type(const iter_t &it_beg, const iter_t &it_name)
+    {
+        for (auto it = it_beg; it != it_name; it++) {
+            const std::string &s = *it;
+
+            if (s != "const" && s != "volatile" && s != "struct" && s != "union" && s != "enum") {
+                return true;
+            }
+        }
+
+        return false;
+    }
+
+
     void append_name(proto_t &proto, int &param_count, const char *separator)
     {
         const std::string name = "a" + std::to_string(param_count);
@@ -152,19 +168,22 @@ namespace /* anonymous */
             }
 
             iter_t it = parse::find_first_not_pointer_or_ident(v);
+            iter_t name = v.end();
 
             if (parse::is_object(v, it)) {
-                proto.param_names += v.back() + ", ";
-                continue;
+                name = v.end() - 1;
             } else if (parse::is_function_pointer(v, it)) {
                 /* type (     * symbol ) ( ) */
                 /*      ^it + 1 2            */
-                proto.param_names += *(it + 2) + ", ";
-                continue;
+                name = it + 2;
             } else if (parse::is_array(v, it)) {
                 /* type symbol [   ] */
                 /*      -1     ^it   */
-                proto.param_names += *(it - 1) + ", ";
+                name = it - 1;
+            }
+
+            if (name != v.end() && parse::is_name(*name) && has_type(v.begin(), name)) {
+                proto.param_names += *name + ", ";
                 continue;
             }
 
diff --git a/src/parse.cpp b/src/parse.cpp
index 0faff5c..8073f7f 100644
--- a/src/parse.cpp
+++ b/src/parse.cpp
@@ -224,8 +224,8 @@ namespace /* anonymous */
             return false;
         }
 
-        /* first element must be an identifier */
-        if (!parse::is_ident(utils::str_front(v.front()))) {
+        /* first element must be an identifier and not a number */
+        if (!parse::is_ident(utils::str_front(v.front())) || ::isdigit(utils::str_front(v.front()))) {
             return false;
         }
 
@@ -264,8 +264,7 @@ namespace /* anonymous */
             proto.prototype = proto::function;
             proto.saved = false;
 
-            /* an identifier token can also be a number */
-            if (!check_prototype(v, proto) || ::isdigit(utils::str_front(proto.symbol))) {
+            if (!check_prototype(v, proto) || !parse::is_name(proto.symbol)) {
                 print_tokens(v);
                 return false;
             }
diff --git a/src/parse.hpp b/src/parse.hpp
index 52f0118..e68f7ed 100644
--- a/src/parse.hpp
+++ b/src/parse.hpp
@@ -60,6 +60,7 @@ namespace parse
     bool create_parameter_names(proto_t &proto, std::string &msg);
 
     /* check_pattern.cpp */
+    bool is_name(const std::string &s);
     bool is_function_pointer(vstring_t &v, const iter_t &i);
     bool is_function_pointer_no_name(vstring_t &v, const iter_t &i);
     bool is_function_parentheses(vstring_t &v, const iter_t &i);
-- 
2.43.0


From b1b0bbf8608bf848553083d8ff9e8d01a39c2f40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:00 +0000
Subject: [PATCH 07/53] fix: let a backslash continue only the next line

The pattern also swallowed all following empty lines, so that the
declaration behind a preprocessor line or comment which ends on a
backslash and an empty line was lost.
---
 src/lex.l    |   2 +-
 src/lex.yy.c | 224 +++++++++++++++++++++++++--------------------------
 2 files changed, 111 insertions(+), 115 deletions(-)

diff --git a/src/lex.l b/src/lex.l
index 351f667..3ae8fc2 100644
--- a/src/lex.l
+++ b/src/lex.l
@@ -43,7 +43,7 @@ void set_illegal_char();
 
 bom                 "\xEF\xBB\xBF"
 col                 [\x1B][\[][0-9;]*[m]
-split               "\\"[[:space:]]*?"\n"
+split               "\\"[ \t\r\f\v]*"\n"
 ast_begin           ^({bom})?({col})?"TranslationUnitDecl"({col})?({col})?" 0x".*
 funcvar             ^({col})?[|`]"-"({col})?({col})?("Function"|"Var")"Decl"({col})?({col})?" 0x".*
 parmvar             ^({col})?[| ]" "[|`]"-"({col})?({col})?"ParmVarDecl"({col})?({col})?" 0x".*
diff --git a/src/lex.yy.c b/src/lex.yy.c
index f09ddf6..e41a98d 100644
--- a/src/lex.yy.c
+++ b/src/lex.yy.c
@@ -456,36 +456,36 @@ static const YY_CHAR yy_meta[50] =
 
 static const flex_int16_t yy_base[273] =
     {   0,
-        0,   48,  479,   53,   57,   61,   58,   62,   64,   65,
-       68,   69,   67,   75,  481,  483,  483,  483,  483,  469,
-       76,    0,  483,  483,   54,  439,  435,  442,  483,  483,
-      429,   97,  102,  451,  483,  438,  435,  425,  483,  483,
-      447,  465,  459,   85,    0,  483,  483,  107,  483,  483,
-      111,  483,  483,   94,  483,  483,  106,  118,  483,  483,
-       99,  457,  483,  483,  123,    0,  426,  426,  427,  427,
-      431,  414,  127,  483,  121,  424,  433,  411,  124,   96,
-      123,    0,  142,  146,  151,  157,  483,  161,  483,  483,
-      165,  169,  173,  483,  177,  483,  181,  185,  424,  427,
-
-      415,  425,  418,  483,  178,  432,  412,  416,  196,  191,
-      184,  440,  425,  407,  420,  206,  211,  216,  225,  230,
-      236,  483,  483,    0,  408,  417,  415,  408,  404,  409,
-      401,  415,  402,  432,  426,  147,   71,  229,  400,  396,
-      483,  483,  483,  483,  398,  392,  401,    0,  403,  393,
-      395,  403,  399,  232,  146,  397,  406,    0,    0,  392,
-      387,  386,  393,  236,  381,  394,  377,  386,    0,  376,
-      250,  374,  243,  157,  379,  246,  380,  383,  377,  483,
-      377,  384,  384,  254,  162,  370,  372,  377,  367,  258,
-      375,  366,  191,  359,  360,  261,  371,  349,  362,  346,
-
-      326,  334,  337,  268,  312,  317,  317,  321,  271,  260,
-        0,  315,  317,  320,  323,    0,  324,  304,  310,  276,
-      299,  315,  274,  283,  326,  298,  279,  263,  249,  214,
-      212,  286,  194,  213,  193,  293,  289,    0,  194,  299,
-      198,    0,  192,  191,  194,  298,  140,  301,  101,  308,
-      135,  314,  311,  324,    0,   93,    0,  323,  326,   87,
-      483,  360,  364,  368,  372,  376,  380,   73,  384,  388,
-      392,  396
+        0,   48,  458,   53,   57,   61,   58,   62,   64,   65,
+       68,   69,   67,   75,  460,  462,  462,  462,  462,  448,
+       76,    0,  462,  462,   54,  418,  414,  421,  462,  462,
+      408,   97,  102,  430,  462,  417,  414,  404,  462,  462,
+      426,  444,  438,   85,    0,  462,  462,  107,  462,  462,
+      111,  462,  462,   94,  462,  462,  106,  118,  462,  462,
+       99,  436,  462,  462,  123,    0,  405,  405,  406,  406,
+      410,  393,  127,  462,  121,  403,  412,  390,  124,   96,
+      123,    0,  142,  462,  146,  462,  462,  151,  462,  462,
+      157,  161,  462,  462,  165,  462,  169,  131,  403,  406,
+
+      394,  404,  397,  462,  162,  411,  391,  395,  176,  171,
+      147,  419,  404,  386,  399,  185,  413,  196,  182,  201,
+      412,  462,  462,    0,  385,  394,  392,  385,  381,  386,
+      378,  392,  379,  409,  403,  190,   71,  194,  377,  373,
+      462,  462,  462,  462,  375,  369,  378,    0,  380,  370,
+      372,  380,  376,  197,  146,  374,  383,    0,    0,  369,
+      364,  363,  370,  200,  358,  371,  354,  363,    0,  353,
+      214,  351,  207,  198,  356,  210,  357,  360,  354,  462,
+      354,  361,  361,  222,  138,  347,  349,  354,  344,  225,
+      352,  343,  222,  337,  341,  232,  355,  335,  345,  352,
+
+      329,  338,  315,  235,  290,  295,  295,  299,  238,  225,
+        0,  293,  295,  298,  301,    0,  302,  283,  288,  247,
+      285,  300,  228,  250,  312,  284,  281,  286,  295,  267,
+      277,  260,  262,  278,  262,  263,  238,    0,  253,  250,
+      258,    0,  252,  255,  258,  272,  237,  275,  151,  278,
+      184,  253,  285,  263,    0,   93,    0,  288,  300,   87,
+      462,  334,  338,  342,  346,  350,  354,   73,  358,  362,
+      366,  370
     } ;
 
 static const flex_int16_t yy_def[273] =
@@ -522,7 +522,7 @@ static const flex_int16_t yy_def[273] =
       261,  261
     } ;
 
-static const flex_int16_t yy_nxt[533] =
+static const flex_int16_t yy_nxt[512] =
     {   0,
        16,   17,   18,   16,   17,   16,   16,   19,   19,   16,
        20,   21,   22,   22,   23,   24,   22,   22,   22,   22,
@@ -538,54 +538,52 @@ static const flex_int16_t yy_nxt[533] =
        65,   73,   74,   73,   73,   87,   73,   74,   83,   84,
        94,   83,   85,   86,   89,   85,  258,   90,   88,   92,
        93,  112,   92,   95,   97,   98,  113,   97,   73,   73,
-       91,   73,   74,  105,  105,  105,  110,  110,  110,  229,
-      112,  114,  255,   83,   84,  115,   83,   83,   84,  166,
-       83,   80,   85,   86,  106,   85,   81,  111,   85,   86,
-      182,   85,  116,  117,  114,  116,  118,  119,  115,  118,
-       92,   93,  252,   92,   92,   93,  153,   92,  120,  121,
-      114,  120,   97,   98,  115,   97,   97,   98,  134,   97,
-      105,  105,  105,  122,  199,  200,  123,   73,   73,  132,
-
-       73,   74,  133,  110,  110,  110,  249,  116,  117,  135,
-      116,  106,  116,  117,  248,  116,  129,  118,  119,  247,
-      118,  246,  141,  243,  111,  240,  118,  119,  136,  118,
-      239,  120,  121,  142,  120,  238,  143,  120,  121,  235,
-      120,  154,  154,  154,  154,  154,  154,  144,  173,  173,
-      173,  180,  180,  234,  180,  173,  173,  173,  184,  184,
-      184,  233,  155,  215,  200,  155,  184,  184,  184,  174,
-      196,  196,  196,  196,  196,  196,  174,  228,  229,  185,
-      209,  209,  209,  209,  209,  209,  232,  185,  224,  224,
-      224,  197,  241,  229,  197,  224,  224,  224,  236,  236,
-
-      236,  210,  244,  245,  210,  236,  236,  236,  231,  225,
-      250,  250,  250,  253,  253,  253,  225,  244,  245,  237,
-      250,  250,  250,  253,  253,  253,  237,  256,  245,  230,
-      200,  251,  227,  226,  254,  259,  259,  259,  259,  259,
-      259,  251,  223,  222,  254,  221,  220,  219,  218,  217,
-      214,  213,  212,  211,  208,  207,  260,  206,  205,  260,
-       39,   39,   39,   39,   45,   45,   45,   45,   49,   49,
-       49,   49,   52,   52,   52,   52,   55,   55,   55,   55,
-       59,   59,   59,   59,   82,  204,  203,   82,  216,  216,
-      153,  216,  242,  242,  202,  242,  257,  257,  201,  257,
-
-      157,  198,  195,  194,  193,  192,  191,  190,  189,  188,
-      187,  186,  183,  181,  179,  178,  177,  176,  175,  172,
-      171,  170,  169,  168,  167,  165,  164,  163,  162,  161,
-      160,  159,  158,  157,  156,   81,   80,   76,   75,  151,
-      150,  149,  148,  147,  146,  145,  140,  139,  138,  137,
-      131,  130,  129,  128,  127,  126,  125,  124,  109,  108,
-      107,  104,  103,  102,  101,  100,   99,   96,   81,   80,
-       79,   78,   77,   76,   75,   72,   71,   70,   69,   62,
-      261,   40,   15,  261,  261,  261,  261,  261,  261,  261,
+       91,   73,   74,  105,  105,  105,  110,  110,  110,  122,
+      112,  114,  123,   83,   84,  115,   83,   85,   86,  166,
+       85,  134,  116,  117,  106,  116,  114,  111,  118,  119,
+      115,  118,   92,   93,  114,   92,  120,  121,  115,  120,
+       97,   98,  135,   97,  105,  105,  105,   73,   73,  132,
+       73,   74,  133,  110,  110,  110,  116,  117,  229,  116,
+      142,  136,  255,  143,   80,  106,  129,  118,  119,   81,
+
+      118,  182,  120,  121,  111,  120,  154,  154,  154,  154,
+      154,  154,  173,  173,  173,  180,  180,  153,  180,  173,
+      173,  173,  184,  184,  184,  199,  200,  155,  215,  200,
+      155,  228,  229,  174,  184,  184,  184,  196,  196,  196,
+      174,  241,  229,  185,  196,  196,  196,  209,  209,  209,
+      209,  209,  209,  244,  245,  185,  244,  245,  197,  224,
+      224,  224,  224,  224,  224,  197,  256,  245,  210,  252,
+      249,  210,  236,  236,  236,  236,  236,  236,  248,  247,
+      225,  246,  243,  225,  250,  250,  250,  253,  253,  253,
+      250,  250,  250,  237,  240,  239,  237,  253,  253,  253,
+
+      259,  259,  259,  238,  235,  251,  234,  233,  254,  232,
+      231,  251,  259,  259,  259,  230,  200,  227,  254,  226,
+      223,  260,  222,  221,  220,  219,  218,  217,  214,  213,
+      212,  211,  208,  260,   39,   39,   39,   39,   45,   45,
+       45,   45,   49,   49,   49,   49,   52,   52,   52,   52,
+       55,   55,   55,   55,   59,   59,   59,   59,   82,  207,
+      206,   82,  216,  216,  205,  216,  242,  242,  204,  242,
+      257,  257,  203,  257,  153,  202,  201,  157,  198,  195,
+      194,  193,  192,  191,  190,  189,  188,  187,  186,  183,
+      181,  179,  178,  177,  176,  175,  172,  171,  170,  169,
+
+      168,  167,  165,  164,  163,  162,  161,  160,  159,  158,
+      157,  156,   81,   80,   76,   75,  151,  150,  149,  148,
+      147,  146,  145,  144,  141,  140,  139,  138,  137,  131,
+      130,  129,  128,  127,  126,  125,  124,  109,  108,  107,
+      104,  103,  102,  101,  100,   99,   96,   81,   80,   79,
+       78,   77,   76,   75,   72,   71,   70,   69,   62,  261,
+       40,   15,  261,  261,  261,  261,  261,  261,  261,  261,
       261,  261,  261,  261,  261,  261,  261,  261,  261,  261,
-
       261,  261,  261,  261,  261,  261,  261,  261,  261,  261,
       261,  261,  261,  261,  261,  261,  261,  261,  261,  261,
+
       261,  261,  261,  261,  261,  261,  261,  261,  261,  261,
-      261,  261
+      261
     } ;
 
-static const flex_int16_t yy_chk[533] =
+static const flex_int16_t yy_chk[512] =
     {   0,
         1,    1,    1,    1,    1,    1,    1,    1,    1,    1,
         1,    1,    1,    1,    1,    1,    1,    1,    1,    1,
@@ -601,51 +599,49 @@ static const flex_int16_t yy_chk[533] =
        21,   32,   32,   33,   33,   54,   33,   33,   48,   48,
        61,   48,   51,   51,   57,   51,  256,   57,   54,   58,
        58,   80,   58,   61,   65,   65,   81,   65,   73,   73,
-       57,   73,   73,   75,   75,   75,   79,   79,   79,  251,
-       80,   81,  249,   83,   83,   81,   83,   84,   84,  155,
-       84,  136,   85,   85,   75,   85,  136,   79,   86,   86,
-      174,   86,   88,   88,  155,   88,   91,   91,  155,   91,
-       92,   92,  247,   92,   93,   93,  174,   93,   95,   95,
-      185,   95,   97,   97,  185,   97,   98,   98,  111,   98,
-      105,  105,  105,   98,  193,  193,   98,  109,  109,  109,
-
-      109,  109,  109,  110,  110,  110,  245,  116,  116,  111,
-      116,  105,  117,  117,  244,  117,  109,  118,  118,  243,
-      118,  241,  117,  239,  110,  235,  119,  119,  111,  119,
-      234,  120,  120,  119,  120,  233,  119,  121,  121,  231,
-      121,  138,  138,  138,  154,  154,  154,  121,  164,  164,
-      164,  171,  171,  230,  171,  173,  173,  173,  176,  176,
-      176,  229,  138,  210,  210,  154,  184,  184,  184,  164,
-      190,  190,  190,  196,  196,  196,  173,  223,  223,  176,
-      204,  204,  204,  209,  209,  209,  228,  184,  220,  220,
-      220,  190,  237,  237,  196,  224,  224,  224,  232,  232,
-
-      232,  204,  240,  240,  209,  236,  236,  236,  227,  220,
-      246,  246,  246,  248,  248,  248,  224,  252,  252,  232,
-      250,  250,  250,  253,  253,  253,  236,  254,  254,  226,
-      225,  246,  222,  221,  248,  258,  258,  258,  259,  259,
-      259,  250,  219,  218,  253,  217,  215,  214,  213,  212,
-      208,  207,  206,  205,  203,  202,  258,  201,  200,  259,
-      262,  262,  262,  262,  263,  263,  263,  263,  264,  264,
-      264,  264,  265,  265,  265,  265,  266,  266,  266,  266,
-      267,  267,  267,  267,  269,  199,  198,  269,  270,  270,
-      197,  270,  271,  271,  195,  271,  272,  272,  194,  272,
-
-      192,  191,  189,  188,  187,  186,  183,  182,  181,  179,
-      178,  177,  175,  172,  170,  168,  167,  166,  165,  163,
-      162,  161,  160,  157,  156,  153,  152,  151,  150,  149,
-      147,  146,  145,  140,  139,  135,  134,  133,  132,  131,
-      130,  129,  128,  127,  126,  125,  115,  114,  113,  112,
-      108,  107,  106,  103,  102,  101,  100,   99,   78,   77,
-       76,   72,   71,   70,   69,   68,   67,   62,   43,   42,
-       41,   38,   37,   36,   34,   31,   28,   27,   26,   20,
-       15,    3,  261,  261,  261,  261,  261,  261,  261,  261,
+       57,   73,   73,   75,   75,   75,   79,   79,   79,   98,
+       80,   81,   98,   83,   83,   81,   83,   85,   85,  155,
+       85,  111,   88,   88,   75,   88,  185,   79,   91,   91,
+      185,   91,   92,   92,  155,   92,   95,   95,  155,   95,
+       97,   97,  111,   97,  105,  105,  105,  109,  109,  109,
+      109,  109,  109,  110,  110,  110,  116,  116,  251,  116,
+      119,  111,  249,  119,  136,  105,  109,  118,  118,  136,
+
+      118,  174,  120,  120,  110,  120,  138,  138,  138,  154,
+      154,  154,  164,  164,  164,  171,  171,  174,  171,  173,
+      173,  173,  176,  176,  176,  193,  193,  138,  210,  210,
+      154,  223,  223,  164,  184,  184,  184,  190,  190,  190,
+      173,  237,  237,  176,  196,  196,  196,  204,  204,  204,
+      209,  209,  209,  240,  240,  184,  252,  252,  190,  220,
+      220,  220,  224,  224,  224,  196,  254,  254,  204,  247,
+      245,  209,  232,  232,  232,  236,  236,  236,  244,  243,
+      220,  241,  239,  224,  246,  246,  246,  248,  248,  248,
+      250,  250,  250,  232,  235,  234,  236,  253,  253,  253,
+
+      258,  258,  258,  233,  231,  246,  230,  229,  248,  228,
+      227,  250,  259,  259,  259,  226,  225,  222,  253,  221,
+      219,  258,  218,  217,  215,  214,  213,  212,  208,  207,
+      206,  205,  203,  259,  262,  262,  262,  262,  263,  263,
+      263,  263,  264,  264,  264,  264,  265,  265,  265,  265,
+      266,  266,  266,  266,  267,  267,  267,  267,  269,  202,
+      201,  269,  270,  270,  200,  270,  271,  271,  199,  271,
+      272,  272,  198,  272,  197,  195,  194,  192,  191,  189,
+      188,  187,  186,  183,  182,  181,  179,  178,  177,  175,
+      172,  170,  168,  167,  166,  165,  163,  162,  161,  160,
+
+      157,  156,  153,  152,  151,  150,  149,  147,  146,  145,
+      140,  139,  135,  134,  133,  132,  131,  130,  129,  128,
+      127,  126,  125,  121,  117,  115,  114,  113,  112,  108,
+      107,  106,  103,  102,  101,  100,   99,   78,   77,   76,
+       72,   71,   70,   69,   68,   67,   62,   43,   42,   41,
+       38,   37,   36,   34,   31,   28,   27,   26,   20,   15,
+        3,  261,  261,  261,  261,  261,  261,  261,  261,  261,
       261,  261,  261,  261,  261,  261,  261,  261,  261,  261,
-
       261,  261,  261,  261,  261,  261,  261,  261,  261,  261,
       261,  261,  261,  261,  261,  261,  261,  261,  261,  261,
+
       261,  261,  261,  261,  261,  261,  261,  261,  261,  261,
-      261,  261
+      261
     } ;
 
 /* Table of booleans, true if rule could match eol. */
-- 
2.43.0


From 7694ae48e819353a147ab3acf7ce49e72c6a5351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:04 +0000
Subject: [PATCH 08/53] fix: find the end of preprocessor lines with comments
 or strings

A comment spanning several lines ended the preprocessor line, so that the
text behind it was read as declarations, and "/*" or "//" within a string
or character literal began a comment which could swallow declarations.
---
 src/lex.l    |   8 +-
 src/lex.yy.c | 528 ++++++++++++++++++++++++++-------------------------
 2 files changed, 276 insertions(+), 260 deletions(-)

diff --git a/src/lex.l b/src/lex.l
index 3ae8fc2..0e058bd 100644
--- a/src/lex.l
+++ b/src/lex.l
@@ -51,6 +51,7 @@ parmvar             ^({col})?[| ]" "[|`]"-"({col})?({col})?"ParmVarDecl"({col})?
 option              ^({bom})?"%option"[[:space:]]
 optstr              [^[:space:]]+
 
+literal             (\"({split}|\\.|[^"\\\n])*\")|("'"({split}|\\.|[^'\\\n])*"'")
 preproc             ^({bom})?[[:space:]]*?"#"
 
 identifier          [a-zA-Z0-9_]+
@@ -93,8 +94,9 @@ other               [*,()\[\]]
 <C_COMMENT>.                { }
 
 {preproc}                   { BEGIN(PRE); }
+<PRE>{literal}              { /* "/*" and "//" don't begin a comment here */ }
 <PRE>"/*"                   { BEGIN(PRE_COMMENT); /* C comment within PRE line */ }
-<PRE>"/"{split}"*"          { BEGIN(C_COMMENT); /* C comment, end of PRE line */ }
+<PRE>"/"{split}"*"          { BEGIN(PRE_COMMENT); /* C comment within PRE line */ }
 <PRE>"//"                   { BEGIN(COMMENT); /* simple comment */ }
 <PRE>"/"{split}"/"          { BEGIN(COMMENT); /* simple comment */ }
 <PRE>{split}                { /* line split */ }
@@ -102,8 +104,8 @@ other               [*,()\[\]]
 <PRE>.                      { }
 
 <PRE_COMMENT>"*/"           { BEGIN(PRE); /* continue PRE line */ }
-<PRE_COMMENT>"*"{split}"/"  { BEGIN(INITIAL); /* end */ }
-<PRE_COMMENT>\n             { BEGIN(C_COMMENT); /* C comment */ }
+<PRE_COMMENT>"*"{split}"/"  { BEGIN(PRE); /* continue PRE line */ }
+<PRE_COMMENT>\n             { /* the PRE line goes on behind the comment */ }
 <PRE_COMMENT>.              { }
 
 {bom}                       { /* UTF-8 byte order mark */ }
diff --git a/src/lex.yy.c b/src/lex.yy.c
index e41a98d..1668522 100644
--- a/src/lex.yy.c
+++ b/src/lex.yy.c
@@ -371,8 +371,8 @@ static void yynoreturn yy_fatal_error ( const char* msg  );
 	(yy_hold_char) = *yy_cp; \
 	*yy_cp = '\0'; \
 	(yy_c_buf_p) = yy_cp;
-#define YY_NUM_RULES 49
-#define YY_END_OF_BUFFER 50
+#define YY_NUM_RULES 50
+#define YY_END_OF_BUFFER 51
 /* This struct is not used in this scanner,
    but its presence is necessary. */
 struct yy_trans_info
@@ -380,37 +380,37 @@ struct yy_trans_info
 	flex_int32_t yy_verify;
 	flex_int32_t yy_nxt;
 	};
-static const flex_int16_t yy_accept[262] =
+static const flex_int16_t yy_accept[271] =
     {   0,
         0,    0,    0,    0,    0,    0,    0,    0,    0,    0,
-        0,    0,    0,    0,   50,   48,   35,   35,   42,   48,
-       48,   41,   47,   46,   41,   41,   41,   41,   44,   45,
-       48,   35,   35,   48,   22,   48,   41,   48,    5,    4,
+        0,    0,    0,    0,   51,   49,   36,   36,   43,   49,
+       49,   42,   48,   47,   42,   42,   42,   42,   45,   46,
+       49,   36,   36,   49,   22,   49,   42,   49,    5,    4,
         5,    5,    5,    5,    8,   10,    9,    8,   15,   14,
-       15,   21,   20,   21,   29,   28,   29,   29,   33,   32,
-       33,    0,   16,   11,    0,   41,   41,   41,   41,   41,
-       41,    0,    0,   22,    0,    0,   41,    0,    0,    0,
-        0,    8,    0,    7,    0,   13,   18,    0,   23,   25,
-        0,    0,   27,   30,    0,   43,    0,    0,   41,   41,
-
-       41,   41,   41,   34,    0,    0,    0,   41,   34,    0,
+       15,   21,   20,   21,   30,   29,   30,   30,   30,   30,
+       34,   33,   34,    0,   16,   11,    0,   42,   42,   42,
+       42,   42,   42,    0,    0,   22,    0,    0,   42,    0,
+        0,    0,    0,    8,    0,    7,    0,   13,   18,    0,
+        0,   23,    0,    0,    0,   24,   26,    0,    0,   28,
+
+       31,    0,   44,    0,    0,   42,   42,   42,   42,   42,
+       35,    0,    0,    0,   42,   35,    0,    0,    0,    0,
         0,    0,    0,    0,    0,    0,    0,    0,    0,    0,
-        0,   17,   12,   39,   41,   41,   41,   41,    0,    0,
-       41,    0,    0,    0,    0,    0,    0,    0,    0,    0,
-       19,   24,   26,   31,   41,   41,   41,   38,    0,    0,
-       41,    0,    0,    0,    0,    0,    0,   36,   37,   41,
-        0,    0,   41,    0,    0,    0,    0,    0,   40,    0,
-        0,   41,    0,    0,    0,    0,    0,    0,    0,    6,
-       41,    0,    0,    0,    0,    0,    0,    0,   41,    0,
-        0,    0,    0,    0,   41,    0,    0,    0,    0,    0,
-
-        0,   41,    0,    0,    0,    0,   41,    0,    0,    0,
-        2,    0,   41,    0,    0,    2,    0,   41,    0,    0,
-        0,   41,    0,    0,    0,    0,   41,    0,    0,    0,
-       41,    0,    0,    0,   41,    0,    0,    3,    0,   41,
-        0,    3,    0,    0,    0,    0,    0,    0,    0,    0,
-        0,    0,    0,    0,    1,    0,    1,    0,    0,    0,
-        0
+       17,   12,   40,   42,   42,   42,   42,    0,    0,   42,
+        0,    0,    0,    0,    0,    0,    0,    0,    0,   19,
+       25,   27,   32,   42,   42,   42,   39,    0,    0,   42,
+        0,    0,    0,    0,    0,    0,   37,   38,   42,    0,
+        0,   42,    0,    0,    0,    0,    0,   41,    0,    0,
+       42,    0,    0,    0,    0,    0,    0,    0,    6,   42,
+        0,    0,    0,    0,    0,    0,    0,   42,    0,    0,
+
+        0,    0,    0,   42,    0,    0,    0,    0,    0,    0,
+       42,    0,    0,    0,    0,   42,    0,    0,    0,    2,
+        0,   42,    0,    0,    2,    0,   42,    0,    0,    0,
+       42,    0,    0,    0,    0,   42,    0,    0,    0,   42,
+        0,    0,    0,   42,    0,    0,    3,    0,   42,    0,
+        3,    0,    0,    0,    0,    0,    0,    0,    0,    0,
+        0,    0,    0,    1,    0,    1,    0,    0,    0,    0
     } ;
 
 static const YY_CHAR yy_ec[256] =
@@ -418,238 +418,247 @@ static const YY_CHAR yy_ec[256] =
         1,    1,    1,    1,    1,    1,    1,    1,    2,    3,
         2,    2,    2,    1,    1,    1,    1,    1,    1,    1,
         1,    1,    1,    1,    1,    1,    4,    1,    1,    1,
-        1,    5,    1,    1,    6,    1,    7,    1,    1,    8,
-        8,    9,    1,    8,   10,   11,   12,   13,   14,   14,
-       14,   14,   14,   14,   14,   14,   14,    1,   15,    1,
-       16,    1,    1,    1,   17,   17,   17,   18,   17,   19,
-       17,   17,   17,   17,   17,   17,   17,   17,   17,   20,
-       17,   17,   17,   21,   22,   23,   17,   17,   17,   17,
-       24,   25,    8,    1,   17,   26,   27,   17,   28,   29,
-
-       30,   31,   17,   17,   32,   17,   17,   33,   34,   35,
-       36,   37,   17,   38,   39,   40,   41,   17,   17,   42,
-       43,   17,   44,   45,   46,    1,    1,    1,    1,    1,
+        1,    5,    1,    6,    7,    1,    8,    1,    9,   10,
+       10,   11,    1,   10,   12,   13,   14,   15,   16,   16,
+       16,   16,   16,   16,   16,   16,   16,    1,   17,    1,
+       18,    1,    1,    1,   19,   19,   19,   20,   19,   21,
+       19,   19,   19,   19,   19,   19,   19,   19,   19,   22,
+       19,   19,   19,   23,   24,   25,   19,   19,   19,   19,
+       26,   27,   10,    1,   19,   28,   29,   19,   30,   31,
+
+       32,   33,   19,   19,   34,   19,   19,   35,   36,   37,
+       38,   39,   19,   40,   41,   42,   43,   19,   19,   44,
+       45,   19,   46,   47,   48,    1,    1,    1,    1,    1,
         1,    1,    1,    1,    1,    1,    1,    1,    1,    1,
         1,    1,    1,    1,    1,    1,    1,    1,    1,    1,
         1,    1,    1,    1,    1,    1,    1,    1,    1,    1,
         1,    1,    1,    1,    1,    1,    1,    1,    1,    1,
         1,    1,    1,    1,    1,    1,    1,    1,    1,    1,
-        1,    1,    1,    1,    1,    1,   47,    1,    1,    1,
-       48,    1,    1,    1,    1,    1,    1,    1,    1,    1,
+        1,    1,    1,    1,    1,    1,   49,    1,    1,    1,
+       50,    1,    1,    1,    1,    1,    1,    1,    1,    1,
 
         1,    1,    1,    1,    1,    1,    1,    1,    1,    1,
         1,    1,    1,    1,    1,    1,    1,    1,    1,    1,
         1,    1,    1,    1,    1,    1,    1,    1,    1,    1,
-        1,    1,    1,    1,    1,    1,    1,    1,   49,    1,
+        1,    1,    1,    1,    1,    1,    1,    1,   51,    1,
         1,    1,    1,    1,    1,    1,    1,    1,    1,    1,
         1,    1,    1,    1,    1
     } ;
 
-static const YY_CHAR yy_meta[50] =
+static const YY_CHAR yy_meta[52] =
     {   0,
         1,    2,    3,    1,    2,    1,    1,    1,    1,    1,
-        1,    1,    4,    4,    1,    1,    4,    4,    4,    4,
-        4,    4,    4,    1,    1,    1,    4,    4,    4,    4,
+        1,    1,    1,    1,    4,    4,    1,    1,    4,    4,
+        4,    4,    4,    4,    4,    1,    1,    1,    4,    4,
         4,    4,    4,    4,    4,    4,    4,    4,    4,    4,
-        4,    4,    4,    1,    1,    1,    1,    1,    1
+        4,    4,    4,    4,    4,    1,    1,    1,    1,    1,
+        1
     } ;
 
-static const flex_int16_t yy_base[273] =
+static const flex_int16_t yy_base[284] =
     {   0,
-        0,   48,  458,   53,   57,   61,   58,   62,   64,   65,
-       68,   69,   67,   75,  460,  462,  462,  462,  462,  448,
-       76,    0,  462,  462,   54,  418,  414,  421,  462,  462,
-      408,   97,  102,  430,  462,  417,  414,  404,  462,  462,
-      426,  444,  438,   85,    0,  462,  462,  107,  462,  462,
-      111,  462,  462,   94,  462,  462,  106,  118,  462,  462,
-       99,  436,  462,  462,  123,    0,  405,  405,  406,  406,
-      410,  393,  127,  462,  121,  403,  412,  390,  124,   96,
-      123,    0,  142,  462,  146,  462,  462,  151,  462,  462,
-      157,  161,  462,  462,  165,  462,  169,  131,  403,  406,
-
-      394,  404,  397,  462,  162,  411,  391,  395,  176,  171,
-      147,  419,  404,  386,  399,  185,  413,  196,  182,  201,
-      412,  462,  462,    0,  385,  394,  392,  385,  381,  386,
-      378,  392,  379,  409,  403,  190,   71,  194,  377,  373,
-      462,  462,  462,  462,  375,  369,  378,    0,  380,  370,
-      372,  380,  376,  197,  146,  374,  383,    0,    0,  369,
-      364,  363,  370,  200,  358,  371,  354,  363,    0,  353,
-      214,  351,  207,  198,  356,  210,  357,  360,  354,  462,
-      354,  361,  361,  222,  138,  347,  349,  354,  344,  225,
-      352,  343,  222,  337,  341,  232,  355,  335,  345,  352,
-
-      329,  338,  315,  235,  290,  295,  295,  299,  238,  225,
-        0,  293,  295,  298,  301,    0,  302,  283,  288,  247,
-      285,  300,  228,  250,  312,  284,  281,  286,  295,  267,
-      277,  260,  262,  278,  262,  263,  238,    0,  253,  250,
-      258,    0,  252,  255,  258,  272,  237,  275,  151,  278,
-      184,  253,  285,  263,    0,   93,    0,  288,  300,   87,
-      462,  334,  338,  342,  346,  350,  354,   73,  358,  362,
-      366,  370
+        0,   50,  494,   56,   60,   64,   53,   61,   65,   67,
+       68,   80,   82,   87,  496,  498,  498,  498,  498,  482,
+       85,    0,  498,  498,   35,  452,  448,  455,  498,  498,
+      442,  103,  111,  464,  498,  451,  448,  438,  498,  498,
+      460,  480,  472,   92,    0,  498,  498,  117,  498,  498,
+      121,  498,  498,   88,  498,  498,   94,  100,  114,  127,
+      498,  498,  117,  470,  498,  498,  131,    0,  439,  439,
+      440,  440,  444,  427,  135,  498,  130,  437,  446,  424,
+      133,   64,  131,    0,  152,  498,  156,  498,  498,  160,
+      133,  498,  165,  144,  170,  498,  498,  174,  178,  498,
+
+      498,  182,  498,  186,  179,  437,  440,  428,  438,  431,
+      498,  179,  445,  425,  429,  195,  189,  173,  453,  438,
+      420,  433,  205,  447,  211,  219,  224,  198,  228,  446,
+      498,  498,    0,  419,  428,  426,  419,  415,  420,  412,
+      426,  413,  445,  437,  227,  160,  219,  411,  407,  498,
+      498,  498,  498,  409,  403,  412,    0,  414,  404,  406,
+      414,  410,  225,  233,  408,  417,    0,    0,  403,  398,
+      397,  404,  228,  392,  405,  388,  397,    0,  387,  245,
+      385,  236,  170,  390,  250,  391,  394,  388,  498,  388,
+      395,  395,  253,  198,  381,  383,  388,  378,  258,  385,
+
+      373,  252,  364,  365,  261,  376,  354,  367,  351,  331,
+      339,  342,  264,  317,  322,  322,  326,  267,  255,    0,
+      320,  322,  325,  328,    0,  329,  310,  316,  275,  312,
+      321,  258,  289,  335,  304,  305,  309,  319,  290,  297,
+      292,  282,  304,  275,  297,  283,    0,  261,  291,  259,
+        0,  241,  223,  196,  300,  151,  303,  107,  306,  138,
+      294,  314,  297,    0,   91,    0,  328,  331,   76,  498,
+      367,  371,  375,  379,  383,  387,   71,  391,  395,  399,
+      403,  407,  411
     } ;
 
-static const flex_int16_t yy_def[273] =
+static const flex_int16_t yy_def[284] =
     {   0,
-      261,    1,  262,  262,  263,  263,  264,  264,  265,  265,
-      266,  266,  267,  267,  261,  261,  261,  261,  261,  261,
-      261,  268,  261,  261,  268,  268,  268,  268,  261,  261,
-      261,  261,  261,  261,  261,  261,  268,  261,  261,  261,
-      261,  261,  261,  261,  269,  261,  261,  269,  261,  261,
-      261,  261,  261,  261,  261,  261,  261,  261,  261,  261,
-      261,  261,  261,  261,  261,  268,  268,  268,  268,  268,
-      268,  261,  261,  261,  261,  261,  268,  261,  261,  261,
-      261,  269,  261,  261,  261,  261,  261,  261,  261,  261,
-      261,  261,  261,  261,  261,  261,  261,  261,  268,  268,
-
-      268,  268,  268,  261,  261,  261,  261,  268,  261,  261,
-      261,  261,  261,  261,  261,  261,  261,  261,  261,  261,
-      261,  261,  261,  268,  268,  268,  268,  268,  261,  261,
-      268,  261,  261,  261,  261,  261,  261,  261,  261,  261,
-      261,  261,  261,  261,  268,  268,  268,  268,  261,  261,
-      268,  261,  261,  261,  261,  261,  261,  268,  268,  268,
-      261,  261,  268,  261,  261,  261,  261,  261,  268,  261,
-      261,  268,  261,  261,  261,  261,  261,  261,  261,  261,
-      268,  261,  261,  261,  261,  261,  261,  261,  268,  261,
-      261,  261,  261,  261,  268,  261,  261,  261,  261,  261,
-
-      261,  268,  261,  261,  261,  261,  268,  261,  261,  261,
-      270,  261,  268,  261,  261,  270,  261,  268,  261,  261,
-      261,  268,  261,  261,  261,  261,  268,  261,  261,  261,
-      268,  261,  261,  261,  268,  261,  261,  271,  261,  268,
-      261,  271,  261,  261,  261,  261,  261,  261,  261,  261,
-      261,  261,  261,  261,  272,  261,  272,  261,  261,  261,
-        0,  261,  261,  261,  261,  261,  261,  261,  261,  261,
-      261,  261
+      270,    1,  271,  271,  272,  272,  273,  273,  274,  274,
+      275,  275,  276,  276,  270,  270,  270,  270,  270,  270,
+      270,  277,  270,  270,  277,  277,  277,  277,  270,  270,
+      270,  270,  270,  270,  270,  270,  277,  270,  270,  270,
+      270,  270,  270,  270,  278,  270,  270,  278,  270,  270,
+      270,  270,  270,  270,  270,  270,  279,  280,  270,  270,
+      270,  270,  270,  270,  270,  270,  270,  277,  277,  277,
+      277,  277,  277,  270,  270,  270,  270,  270,  277,  270,
+      270,  270,  270,  278,  270,  270,  270,  270,  270,  270,
+      279,  270,  279,  280,  280,  270,  270,  270,  270,  270,
+
+      270,  270,  270,  270,  270,  277,  277,  277,  277,  277,
+      270,  270,  270,  270,  277,  270,  270,  270,  270,  270,
+      270,  270,  270,  270,  279,  280,  270,  270,  270,  270,
+      270,  270,  277,  277,  277,  277,  277,  270,  270,  277,
+      270,  270,  270,  270,  270,  270,  270,  270,  270,  270,
+      270,  270,  270,  277,  277,  277,  277,  270,  270,  277,
+      270,  270,  270,  270,  270,  270,  277,  277,  277,  270,
+      270,  277,  270,  270,  270,  270,  270,  277,  270,  270,
+      277,  270,  270,  270,  270,  270,  270,  270,  270,  277,
+      270,  270,  270,  270,  270,  270,  270,  277,  270,  270,
+
+      270,  270,  270,  277,  270,  270,  270,  270,  270,  270,
+      277,  270,  270,  270,  270,  277,  270,  270,  270,  281,
+      270,  277,  270,  270,  281,  270,  277,  270,  270,  270,
+      277,  270,  270,  270,  270,  277,  270,  270,  270,  277,
+      270,  270,  270,  277,  270,  270,  282,  270,  277,  270,
+      282,  270,  270,  270,  270,  270,  270,  270,  270,  270,
+      270,  270,  270,  283,  270,  283,  270,  270,  270,    0,
+      270,  270,  270,  270,  270,  270,  270,  270,  270,  270,
+      270,  270,  270
     } ;
 
-static const flex_int16_t yy_nxt[512] =
+static const flex_int16_t yy_nxt[550] =
     {   0,
-       16,   17,   18,   16,   17,   16,   16,   19,   19,   16,
-       20,   21,   22,   22,   23,   24,   22,   22,   22,   22,
-       22,   22,   22,   19,   16,   16,   22,   22,   22,   25,
-       22,   22,   22,   22,   22,   22,   22,   22,   26,   27,
-       28,   22,   22,   29,   16,   30,   16,   16,   31,   32,
-       33,   34,   32,   35,   36,   40,   41,   42,   46,   47,
-       50,   46,   46,   47,   50,   46,   53,   53,   37,   60,
-       56,   56,   54,   54,  152,   61,   66,   60,   43,   57,
-       57,   48,   51,   61,   63,   48,   51,   64,   67,   80,
-      153,  245,   58,   58,   81,   68,   38,   44,   73,   73,
-
-       65,   73,   74,   73,   73,   87,   73,   74,   83,   84,
-       94,   83,   85,   86,   89,   85,  258,   90,   88,   92,
-       93,  112,   92,   95,   97,   98,  113,   97,   73,   73,
-       91,   73,   74,  105,  105,  105,  110,  110,  110,  122,
-      112,  114,  123,   83,   84,  115,   83,   85,   86,  166,
-       85,  134,  116,  117,  106,  116,  114,  111,  118,  119,
-      115,  118,   92,   93,  114,   92,  120,  121,  115,  120,
-       97,   98,  135,   97,  105,  105,  105,   73,   73,  132,
-       73,   74,  133,  110,  110,  110,  116,  117,  229,  116,
-      142,  136,  255,  143,   80,  106,  129,  118,  119,   81,
-
-      118,  182,  120,  121,  111,  120,  154,  154,  154,  154,
-      154,  154,  173,  173,  173,  180,  180,  153,  180,  173,
-      173,  173,  184,  184,  184,  199,  200,  155,  215,  200,
-      155,  228,  229,  174,  184,  184,  184,  196,  196,  196,
-      174,  241,  229,  185,  196,  196,  196,  209,  209,  209,
-      209,  209,  209,  244,  245,  185,  244,  245,  197,  224,
-      224,  224,  224,  224,  224,  197,  256,  245,  210,  252,
-      249,  210,  236,  236,  236,  236,  236,  236,  248,  247,
-      225,  246,  243,  225,  250,  250,  250,  253,  253,  253,
-      250,  250,  250,  237,  240,  239,  237,  253,  253,  253,
-
-      259,  259,  259,  238,  235,  251,  234,  233,  254,  232,
-      231,  251,  259,  259,  259,  230,  200,  227,  254,  226,
-      223,  260,  222,  221,  220,  219,  218,  217,  214,  213,
-      212,  211,  208,  260,   39,   39,   39,   39,   45,   45,
-       45,   45,   49,   49,   49,   49,   52,   52,   52,   52,
-       55,   55,   55,   55,   59,   59,   59,   59,   82,  207,
-      206,   82,  216,  216,  205,  216,  242,  242,  204,  242,
-      257,  257,  203,  257,  153,  202,  201,  157,  198,  195,
-      194,  193,  192,  191,  190,  189,  188,  187,  186,  183,
-      181,  179,  178,  177,  176,  175,  172,  171,  170,  169,
-
-      168,  167,  165,  164,  163,  162,  161,  160,  159,  158,
-      157,  156,   81,   80,   76,   75,  151,  150,  149,  148,
-      147,  146,  145,  144,  141,  140,  139,  138,  137,  131,
-      130,  129,  128,  127,  126,  125,  124,  109,  108,  107,
-      104,  103,  102,  101,  100,   99,   96,   81,   80,   79,
-       78,   77,   76,   75,   72,   71,   70,   69,   62,  261,
-       40,   15,  261,  261,  261,  261,  261,  261,  261,  261,
-      261,  261,  261,  261,  261,  261,  261,  261,  261,  261,
-      261,  261,  261,  261,  261,  261,  261,  261,  261,  261,
-      261,  261,  261,  261,  261,  261,  261,  261,  261,  261,
-
-      261,  261,  261,  261,  261,  261,  261,  261,  261,  261,
-      261
+       16,   17,   18,   16,   17,   16,   16,   16,   16,   19,
+       19,   16,   20,   21,   22,   22,   23,   24,   22,   22,
+       22,   22,   22,   22,   22,   19,   16,   16,   22,   22,
+       22,   25,   22,   22,   22,   22,   22,   22,   22,   22,
+       26,   27,   28,   22,   22,   29,   16,   30,   16,   16,
+       31,   32,   33,   34,   32,   50,   35,   36,   40,   41,
+       42,   46,   47,   50,   46,   46,   47,   53,   46,   53,
+       56,   69,   37,   57,   68,   54,   58,   54,   70,   51,
+      254,   59,   56,   43,   62,   57,   48,   51,   58,   62,
+       48,  119,   63,   59,   60,   65,   82,   63,   66,   92,
+
+       38,   89,   44,   83,   75,   75,   60,   75,   92,   76,
+      119,   67,   75,   75,   90,   75,  267,   76,   85,   86,
+       93,   85,   87,   88,   96,   87,   95,   97,   99,  100,
+      101,   99,  104,  105,  120,  104,   75,   75,   92,   75,
+       98,   76,  238,  102,  112,  112,  112,  117,  117,  117,
+      264,  121,   92,   85,   86,  122,   85,   87,   88,   93,
+       87,  123,  124,  161,  123,  113,  125,   91,  118,  125,
+       95,  126,   94,  191,  126,  127,  128,  143,  127,   99,
+      100,  162,   99,  129,  130,  261,  129,  104,  105,  131,
+      104,  162,  132,  112,  112,  112,   75,   75,  141,   75,
+
+      144,   76,  142,  117,  117,  117,  123,  124,  151,  123,
+      258,  152,  125,   91,  113,  125,   92,  138,  121,  145,
+      126,   94,  122,  126,  118,  127,  128,   92,  127,  129,
+      130,   82,  129,  163,  163,  163,  175,   93,   83,  163,
+      163,  163,  182,  182,  182,   95,  189,  189,  257,  189,
+      182,  182,  182,  121,  164,  208,  209,  122,  224,  209,
+      164,  237,  238,  183,  193,  193,  193,  193,  193,  193,
+      256,  183,  205,  205,  205,  205,  205,  205,  218,  218,
+      218,  218,  218,  218,  255,  194,  250,  238,  194,  233,
+      233,  233,  252,  206,  253,  254,  206,  253,  254,  219,
+
+      265,  254,  219,  233,  233,  233,  245,  245,  245,  249,
+      234,  245,  245,  245,  259,  259,  259,  262,  262,  262,
+      259,  259,  259,  248,  234,  247,  244,  246,  262,  262,
+      262,  243,  246,  242,  241,  260,  240,  239,  263,  209,
+      236,  260,  268,  268,  268,  268,  268,  268,  235,  263,
+      232,  231,  230,  229,  228,  227,  226,  223,  222,  221,
+      220,  217,  216,  269,  215,  214,  269,   39,   39,   39,
+       39,   45,   45,   45,   45,   49,   49,   49,   49,   52,
+       52,   52,   52,   55,   55,   55,   55,   61,   61,   61,
+       61,   84,  213,  212,   84,   91,   91,  162,   91,   94,
+
+       94,  211,   94,  225,  225,  210,  225,  251,  251,  166,
+      251,  266,  266,  207,  266,  204,  203,  202,  201,  200,
+      199,  198,  197,  196,  195,  192,  190,  188,  187,  186,
+      185,  184,  181,  180,  179,  178,  177,  176,  174,  173,
+      172,  171,  170,  169,  168,  167,  166,  165,   83,   82,
+       78,   77,  160,  159,  158,  157,  156,  155,  154,  153,
+      150,  149,  148,  147,  146,  140,  139,  138,  137,  136,
+      135,  134,  133,  116,  115,  114,  111,  110,  109,  108,
+      107,  106,  103,   83,   82,   81,   80,   79,   78,   77,
+       74,   73,   72,   71,   64,  270,   40,   15,  270,  270,
+
+      270,  270,  270,  270,  270,  270,  270,  270,  270,  270,
+      270,  270,  270,  270,  270,  270,  270,  270,  270,  270,
+      270,  270,  270,  270,  270,  270,  270,  270,  270,  270,
+      270,  270,  270,  270,  270,  270,  270,  270,  270,  270,
+      270,  270,  270,  270,  270,  270,  270,  270,  270
     } ;
 
-static const flex_int16_t yy_chk[512] =
+static const flex_int16_t yy_chk[550] =
     {   0,
         1,    1,    1,    1,    1,    1,    1,    1,    1,    1,
         1,    1,    1,    1,    1,    1,    1,    1,    1,    1,
         1,    1,    1,    1,    1,    1,    1,    1,    1,    1,
         1,    1,    1,    1,    1,    1,    1,    1,    1,    1,
-        1,    1,    1,    1,    1,    1,    1,    1,    1,    2,
-        2,    2,    2,    2,    2,    4,    4,    4,    5,    5,
-        7,    5,    6,    6,    8,    6,    9,   10,    2,   13,
-       11,   12,    9,   10,  137,   13,  268,   14,    4,   11,
-       12,    5,    7,   14,   21,    6,    8,   21,   25,   44,
-      137,  260,   11,   12,   44,   25,    2,    4,   32,   32,
-
-       21,   32,   32,   33,   33,   54,   33,   33,   48,   48,
-       61,   48,   51,   51,   57,   51,  256,   57,   54,   58,
-       58,   80,   58,   61,   65,   65,   81,   65,   73,   73,
-       57,   73,   73,   75,   75,   75,   79,   79,   79,   98,
-       80,   81,   98,   83,   83,   81,   83,   85,   85,  155,
-       85,  111,   88,   88,   75,   88,  185,   79,   91,   91,
-      185,   91,   92,   92,  155,   92,   95,   95,  155,   95,
-       97,   97,  111,   97,  105,  105,  105,  109,  109,  109,
-      109,  109,  109,  110,  110,  110,  116,  116,  251,  116,
-      119,  111,  249,  119,  136,  105,  109,  118,  118,  136,
-
-      118,  174,  120,  120,  110,  120,  138,  138,  138,  154,
-      154,  154,  164,  164,  164,  171,  171,  174,  171,  173,
-      173,  173,  176,  176,  176,  193,  193,  138,  210,  210,
-      154,  223,  223,  164,  184,  184,  184,  190,  190,  190,
-      173,  237,  237,  176,  196,  196,  196,  204,  204,  204,
-      209,  209,  209,  240,  240,  184,  252,  252,  190,  220,
-      220,  220,  224,  224,  224,  196,  254,  254,  204,  247,
-      245,  209,  232,  232,  232,  236,  236,  236,  244,  243,
-      220,  241,  239,  224,  246,  246,  246,  248,  248,  248,
-      250,  250,  250,  232,  235,  234,  236,  253,  253,  253,
-
-      258,  258,  258,  233,  231,  246,  230,  229,  248,  228,
-      227,  250,  259,  259,  259,  226,  225,  222,  253,  221,
-      219,  258,  218,  217,  215,  214,  213,  212,  208,  207,
-      206,  205,  203,  259,  262,  262,  262,  262,  263,  263,
-      263,  263,  264,  264,  264,  264,  265,  265,  265,  265,
-      266,  266,  266,  266,  267,  267,  267,  267,  269,  202,
-      201,  269,  270,  270,  200,  270,  271,  271,  199,  271,
-      272,  272,  198,  272,  197,  195,  194,  192,  191,  189,
-      188,  187,  186,  183,  182,  181,  179,  178,  177,  175,
-      172,  170,  168,  167,  166,  165,  163,  162,  161,  160,
-
-      157,  156,  153,  152,  151,  150,  149,  147,  146,  145,
-      140,  139,  135,  134,  133,  132,  131,  130,  129,  128,
-      127,  126,  125,  121,  117,  115,  114,  113,  112,  108,
-      107,  106,  103,  102,  101,  100,   99,   78,   77,   76,
-       72,   71,   70,   69,   68,   67,   62,   43,   42,   41,
-       38,   37,   36,   34,   31,   28,   27,   26,   20,   15,
-        3,  261,  261,  261,  261,  261,  261,  261,  261,  261,
-      261,  261,  261,  261,  261,  261,  261,  261,  261,  261,
-      261,  261,  261,  261,  261,  261,  261,  261,  261,  261,
-      261,  261,  261,  261,  261,  261,  261,  261,  261,  261,
-
-      261,  261,  261,  261,  261,  261,  261,  261,  261,  261,
-      261
+        1,    1,    1,    1,    1,    1,    1,    1,    1,    1,
+        1,    2,    2,    2,    2,    7,    2,    2,    4,    4,
+        4,    5,    5,    8,    5,    6,    6,    9,    6,   10,
+       11,   25,    2,   11,  277,    9,   11,   10,   25,    7,
+      269,   11,   12,    4,   13,   12,    5,    8,   12,   14,
+        6,   82,   13,   12,   11,   21,   44,   14,   21,   57,
+
+        2,   54,    4,   44,   32,   32,   12,   32,   58,   32,
+       82,   21,   33,   33,   54,   33,  265,   33,   48,   48,
+       57,   48,   51,   51,   59,   51,   58,   59,   60,   60,
+       63,   60,   67,   67,   83,   67,   75,   75,   91,   75,
+       59,   75,  260,   63,   77,   77,   77,   81,   81,   81,
+      258,   83,   94,   85,   85,   83,   85,   87,   87,   91,
+       87,   90,   90,  146,   90,   77,   93,   93,   81,   93,
+       94,   95,   95,  183,   95,   98,   98,  118,   98,   99,
+       99,  146,   99,  102,  102,  256,  102,  104,  104,  105,
+      104,  183,  105,  112,  112,  112,  116,  116,  116,  116,
+
+      118,  116,  116,  117,  117,  117,  123,  123,  128,  123,
+      254,  128,  125,  125,  112,  125,  125,  116,  194,  118,
+      126,  126,  194,  126,  117,  127,  127,  126,  127,  129,
+      129,  145,  129,  147,  147,  147,  164,  125,  145,  163,
+      163,  163,  173,  173,  173,  126,  180,  180,  253,  180,
+      182,  182,  182,  164,  147,  202,  202,  164,  219,  219,
+      163,  232,  232,  173,  185,  185,  185,  193,  193,  193,
+      252,  182,  199,  199,  199,  205,  205,  205,  213,  213,
+      213,  218,  218,  218,  250,  185,  246,  246,  193,  229,
+      229,  229,  248,  199,  249,  249,  205,  261,  261,  213,
+
+      263,  263,  218,  233,  233,  233,  241,  241,  241,  244,
+      229,  245,  245,  245,  255,  255,  255,  257,  257,  257,
+      259,  259,  259,  243,  233,  242,  240,  241,  262,  262,
+      262,  239,  245,  238,  237,  255,  236,  235,  257,  234,
+      231,  259,  267,  267,  267,  268,  268,  268,  230,  262,
+      228,  227,  226,  224,  223,  222,  221,  217,  216,  215,
+      214,  212,  211,  267,  210,  209,  268,  271,  271,  271,
+      271,  272,  272,  272,  272,  273,  273,  273,  273,  274,
+      274,  274,  274,  275,  275,  275,  275,  276,  276,  276,
+      276,  278,  208,  207,  278,  279,  279,  206,  279,  280,
+
+      280,  204,  280,  281,  281,  203,  281,  282,  282,  201,
+      282,  283,  283,  200,  283,  198,  197,  196,  195,  192,
+      191,  190,  188,  187,  186,  184,  181,  179,  177,  176,
+      175,  174,  172,  171,  170,  169,  166,  165,  162,  161,
+      160,  159,  158,  156,  155,  154,  149,  148,  144,  143,
+      142,  141,  140,  139,  138,  137,  136,  135,  134,  130,
+      124,  122,  121,  120,  119,  115,  114,  113,  110,  109,
+      108,  107,  106,   80,   79,   78,   74,   73,   72,   71,
+       70,   69,   64,   43,   42,   41,   38,   37,   36,   34,
+       31,   28,   27,   26,   20,   15,    3,  270,  270,  270,
+
+      270,  270,  270,  270,  270,  270,  270,  270,  270,  270,
+      270,  270,  270,  270,  270,  270,  270,  270,  270,  270,
+      270,  270,  270,  270,  270,  270,  270,  270,  270,  270,
+      270,  270,  270,  270,  270,  270,  270,  270,  270,  270,
+      270,  270,  270,  270,  270,  270,  270,  270,  270
     } ;
 
 /* Table of booleans, true if rule could match eol. */
-static const flex_int32_t yy_rule_can_match_eol[50] =
+static const flex_int32_t yy_rule_can_match_eol[51] =
     {   0,
 0, 0, 0, 1, 0, 1, 1, 0, 1, 0, 0, 1, 1, 1, 0, 0, 1, 0, 1, 
-    1, 0, 1, 0, 1, 0, 1, 1, 1, 0, 0, 1, 1, 0, 0, 1, 0, 0, 0, 0, 
-    0, 0, 0, 0, 0, 0, 0, 0, 0, 0,     };
+    1, 0, 1, 1, 0, 1, 0, 1, 1, 1, 0, 0, 1, 1, 0, 0, 1, 0, 0, 0, 
+    0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0,     };
 
 static yy_state_type yy_last_accepting_state;
 static char *yy_last_accepting_cpos;
@@ -957,13 +966,13 @@ yy_match:
 			while ( yy_chk[yy_base[yy_current_state] + yy_c] != yy_current_state )
 				{
 				yy_current_state = (int) yy_def[yy_current_state];
-				if ( yy_current_state >= 262 )
+				if ( yy_current_state >= 271 )
 					yy_c = yy_meta[yy_c];
 				}
 			yy_current_state = yy_nxt[yy_base[yy_current_state] + yy_c];
 			++yy_cp;
 			}
-		while ( yy_current_state != 261 );
+		while ( yy_current_state != 270 );
 		yy_cp = (yy_last_accepting_cpos);
 		yy_current_state = (yy_last_accepting_state);
 
@@ -1093,91 +1102,92 @@ YY_RULE_SETUP
 { BEGIN(PRE); }
 	YY_BREAK
 case 23:
+/* rule 23 can match eol */
 YY_RULE_SETUP
-{ BEGIN(PRE_COMMENT); /* C comment within PRE line */ }
+{ /* "/*" and "//" don't begin a comment here */ }
 	YY_BREAK
 case 24:
-/* rule 24 can match eol */
 YY_RULE_SETUP
-{ BEGIN(C_COMMENT); /* C comment, end of PRE line */ }
+{ BEGIN(PRE_COMMENT); /* C comment within PRE line */ }
 	YY_BREAK
 case 25:
+/* rule 25 can match eol */
 YY_RULE_SETUP
-{ BEGIN(COMMENT); /* simple comment */ }
+{ BEGIN(PRE_COMMENT); /* C comment within PRE line */ }
 	YY_BREAK
 case 26:
-/* rule 26 can match eol */
 YY_RULE_SETUP
 { BEGIN(COMMENT); /* simple comment */ }
 	YY_BREAK
 case 27:
 /* rule 27 can match eol */
 YY_RULE_SETUP
-{ /* line split */ }
+{ BEGIN(COMMENT); /* simple comment */ }
 	YY_BREAK
 case 28:
 /* rule 28 can match eol */
 YY_RULE_SETUP
-{ BEGIN(INITIAL); /* end */ }
+{ /* line split */ }
 	YY_BREAK
 case 29:
+/* rule 29 can match eol */
 YY_RULE_SETUP
-{ }
+{ BEGIN(INITIAL); /* end */ }
 	YY_BREAK
 case 30:
 YY_RULE_SETUP
-{ BEGIN(PRE); /* continue PRE line */ }
+{ }
 	YY_BREAK
 case 31:
-/* rule 31 can match eol */
 YY_RULE_SETUP
-{ BEGIN(INITIAL); /* end */ }
+{ BEGIN(PRE); /* continue PRE line */ }
 	YY_BREAK
 case 32:
 /* rule 32 can match eol */
 YY_RULE_SETUP
-{ BEGIN(C_COMMENT); /* C comment */ }
+{ BEGIN(PRE); /* continue PRE line */ }
 	YY_BREAK
 case 33:
+/* rule 33 can match eol */
 YY_RULE_SETUP
-{ }
+{ /* the PRE line goes on behind the comment */ }
 	YY_BREAK
 case 34:
 YY_RULE_SETUP
-{ /* UTF-8 byte order mark */ }
+{ }
 	YY_BREAK
 case 35:
-/* rule 35 can match eol */
 YY_RULE_SETUP
-{ }
+{ /* UTF-8 byte order mark */ }
 	YY_BREAK
 case 36:
+/* rule 36 can match eol */
 YY_RULE_SETUP
-{ /* ignore "extern" keyword */ }
+{ }
 	YY_BREAK
 case 37:
 YY_RULE_SETUP
-{ return LEX_STRUCT; }
+{ /* ignore "extern" keyword */ }
 	YY_BREAK
 case 38:
 YY_RULE_SETUP
-{ return LEX_UNION; }
+{ return LEX_STRUCT; }
 	YY_BREAK
 case 39:
 YY_RULE_SETUP
-{ return LEX_ENUM; }
+{ return LEX_UNION; }
 	YY_BREAK
 case 40:
 YY_RULE_SETUP
-{ return LEX_TYPEDEF; }
+{ return LEX_ENUM; }
 	YY_BREAK
 case 41:
 YY_RULE_SETUP
-{ return LEX_ID; }
+{ return LEX_TYPEDEF; }
 	YY_BREAK
 case 42:
 YY_RULE_SETUP
-{ return LEX_OTHER; }
+{ return LEX_ID; }
 	YY_BREAK
 case 43:
 YY_RULE_SETUP
@@ -1185,26 +1195,30 @@ YY_RULE_SETUP
 	YY_BREAK
 case 44:
 YY_RULE_SETUP
-{ return LEX_CURLY_OPEN; }
+{ return LEX_OTHER; }
 	YY_BREAK
 case 45:
 YY_RULE_SETUP
-{ return LEX_CURLY_CLOSE; }
+{ return LEX_CURLY_OPEN; }
 	YY_BREAK
 case 46:
 YY_RULE_SETUP
-{ return LEX_EQUAL; }
+{ return LEX_CURLY_CLOSE; }
 	YY_BREAK
 case 47:
 YY_RULE_SETUP
-{ return LEX_SEMICOLON; }
+{ return LEX_EQUAL; }
 	YY_BREAK
 case 48:
 YY_RULE_SETUP
-{ set_illegal_char(); return LEX_ERROR; }
+{ return LEX_SEMICOLON; }
 	YY_BREAK
 case 49:
 YY_RULE_SETUP
+{ set_illegal_char(); return LEX_ERROR; }
+	YY_BREAK
+case 50:
+YY_RULE_SETUP
 ECHO;
 	YY_BREAK
 case YY_STATE_EOF(INITIAL):
@@ -1511,7 +1525,7 @@ static int yy_get_next_buffer (void)
 		while ( yy_chk[yy_base[yy_current_state] + yy_c] != yy_current_state )
 			{
 			yy_current_state = (int) yy_def[yy_current_state];
-			if ( yy_current_state >= 262 )
+			if ( yy_current_state >= 271 )
 				yy_c = yy_meta[yy_c];
 			}
 		yy_current_state = yy_nxt[yy_base[yy_current_state] + yy_c];
@@ -1539,11 +1553,11 @@ static int yy_get_next_buffer (void)
 	while ( yy_chk[yy_base[yy_current_state] + yy_c] != yy_current_state )
 		{
 		yy_current_state = (int) yy_def[yy_current_state];
-		if ( yy_current_state >= 262 )
+		if ( yy_current_state >= 271 )
 			yy_c = yy_meta[yy_c];
 		}
 	yy_current_state = yy_nxt[yy_base[yy_current_state] + yy_c];
-	yy_is_jam = (yy_current_state == 261);
+	yy_is_jam = (yy_current_state == 270);
 
 		return yy_is_jam ? 0 : yy_current_state;
 }
-- 
2.43.0


From 1bb3378228cfe6867ed970d75e32486ef0bf7fd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:32 +0000
Subject: [PATCH 09/53] fix: refuse input which ends within a comment or a
 block

A missing "*/" or "}" silently swallowed all declarations behind it.
---
 src/lex.l        |  8 ++++++++
 src/lex.yy.c     | 13 +++++++++++--
 src/tokenize.cpp |  5 +++++
 3 files changed, 24 insertions(+), 2 deletions(-)

diff --git a/src/lex.l b/src/lex.l
index 0e058bd..285dac1 100644
--- a/src/lex.l
+++ b/src/lex.l
@@ -38,6 +38,7 @@ const char *lex_errmsg = errbuf;
 
 static int handle_ast_begin();
 void set_illegal_char();
+static void set_unterminated_comment();
 
 %}
 
@@ -90,6 +91,7 @@ other               [*,()\[\]]
 "/"{split}"*"               { BEGIN(C_COMMENT); /* C comment */ }
 <C_COMMENT>"*/"             { BEGIN(INITIAL); /* end */ }
 <C_COMMENT>"*"{split}"/"    { BEGIN(INITIAL); /* end */ }
+<C_COMMENT,PRE_COMMENT><<EOF>> { set_unterminated_comment(); return LEX_ERROR; }
 <C_COMMENT>\n               { }
 <C_COMMENT>.                { }
 
@@ -144,6 +146,12 @@ static int handle_ast_begin()
     return LEX_ERROR;
 }
 
+/* save error message */
+static void set_unterminated_comment()
+{
+    SNPRINTF(errbuf, sizeof(errbuf), "%s", "unexpected end of input within a comment");
+}
+
 /* save error message */
 void set_illegal_char()
 {
diff --git a/src/lex.yy.c b/src/lex.yy.c
index 1668522..00220ce 100644
--- a/src/lex.yy.c
+++ b/src/lex.yy.c
@@ -713,6 +713,7 @@ const char *lex_errmsg = errbuf;
 
 static int handle_ast_begin();
 void set_illegal_char();
+static void set_unterminated_comment();
 
 #define YY_NO_INPUT 1
 #define YY_NO_UNISTD_H 1
@@ -1087,6 +1088,10 @@ case 19:
 YY_RULE_SETUP
 { BEGIN(INITIAL); /* end */ }
 	YY_BREAK
+case YY_STATE_EOF(C_COMMENT):
+case YY_STATE_EOF(PRE_COMMENT):
+{ set_unterminated_comment(); return LEX_ERROR; }
+	YY_BREAK
 case 20:
 /* rule 20 can match eol */
 YY_RULE_SETUP
@@ -1225,9 +1230,7 @@ case YY_STATE_EOF(INITIAL):
 case YY_STATE_EOF(AST):
 case YY_STATE_EOF(OPTION):
 case YY_STATE_EOF(COMMENT):
-case YY_STATE_EOF(C_COMMENT):
 case YY_STATE_EOF(PRE):
-case YY_STATE_EOF(PRE_COMMENT):
 	yyterminate();
 
 	case YY_END_OF_BUFFER:
@@ -2219,6 +2222,12 @@ static int handle_ast_begin()
     return LEX_ERROR;
 }
 
+/* save error message */
+static void set_unterminated_comment()
+{
+    SNPRINTF(errbuf, sizeof(errbuf), "%s", "unexpected end of input within a comment");
+}
+
 /* save error message */
 void set_illegal_char()
 {
diff --git a/src/tokenize.cpp b/src/tokenize.cpp
index c3ae8a7..20d3ea3 100644
--- a/src/tokenize.cpp
+++ b/src/tokenize.cpp
@@ -164,6 +164,11 @@ namespace /* anonymous */
             }
         } /* end of loop body */
 
+        /* file ended within curly braces */
+        if (block && curly_count > 0 && rv != LEX_ERROR) {
+            throw gendlopen::error("unexpected end of input within a struct, union, enum or typedef");
+        }
+
         /* push back if last prototype didn't end on semicolon */
         if (!tokens.empty()) {
             vec.push_back(tokens);
-- 
2.43.0


From 7422fa51cf7bb8b7e50fa2606265262a1dc9cb69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:36 +0000
Subject: [PATCH 10/53] fix: split %option lines also directly behind an option
 string

The backslash became part of the string unless there was a space in front
of it. An empty %option line took the next line for options.
---
 src/lex.l    |   5 +-
 src/lex.yy.c | 515 ++++++++++++++++++++++++++-------------------------
 2 files changed, 266 insertions(+), 254 deletions(-)

diff --git a/src/lex.l b/src/lex.l
index 285dac1..68be935 100644
--- a/src/lex.l
+++ b/src/lex.l
@@ -49,8 +49,8 @@ ast_begin           ^({bom})?({col})?"TranslationUnitDecl"({col})?({col})?" 0x".
 funcvar             ^({col})?[|`]"-"({col})?({col})?("Function"|"Var")"Decl"({col})?({col})?" 0x".*
 parmvar             ^({col})?[| ]" "[|`]"-"({col})?({col})?"ParmVarDecl"({col})?({col})?" 0x".*
 
-option              ^({bom})?"%option"[[:space:]]
-optstr              [^[:space:]]+
+option              ^({bom})?"%option"/[[:space:]]
+optstr              ([^[:space:]\\]|\\+[^[:space:]\\])+
 
 literal             (\"({split}|\\.|[^"\\\n])*\")|("'"({split}|\\.|[^'\\\n])*"'")
 preproc             ^({bom})?[[:space:]]*?"#"
@@ -78,6 +78,7 @@ other               [*,()\[\]]
 {option}                    { BEGIN(OPTION); /* %option line */ }
 <OPTION>{split}             { /* line split */ }
 <OPTION>{optstr}            { return LEX_OPTION; }
+<OPTION>\\                  { return LEX_OPTION; }
 <OPTION>\n                  { BEGIN(INITIAL); /* end */}
 <OPTION>.                   { }
 
diff --git a/src/lex.yy.c b/src/lex.yy.c
index 00220ce..1258936 100644
--- a/src/lex.yy.c
+++ b/src/lex.yy.c
@@ -371,8 +371,8 @@ static void yynoreturn yy_fatal_error ( const char* msg  );
 	(yy_hold_char) = *yy_cp; \
 	*yy_cp = '\0'; \
 	(yy_c_buf_p) = yy_cp;
-#define YY_NUM_RULES 50
-#define YY_END_OF_BUFFER 51
+#define YY_NUM_RULES 51
+#define YY_END_OF_BUFFER 52
 /* This struct is not used in this scanner,
    but its presence is necessary. */
 struct yy_trans_info
@@ -380,37 +380,38 @@ struct yy_trans_info
 	flex_int32_t yy_verify;
 	flex_int32_t yy_nxt;
 	};
-static const flex_int16_t yy_accept[271] =
+static const flex_int16_t yy_accept[272] =
     {   0,
         0,    0,    0,    0,    0,    0,    0,    0,    0,    0,
-        0,    0,    0,    0,   51,   49,   36,   36,   43,   49,
-       49,   42,   48,   47,   42,   42,   42,   42,   45,   46,
-       49,   36,   36,   49,   22,   49,   42,   49,    5,    4,
-        5,    5,    5,    5,    8,   10,    9,    8,   15,   14,
-       15,   21,   20,   21,   30,   29,   30,   30,   30,   30,
-       34,   33,   34,    0,   16,   11,    0,   42,   42,   42,
-       42,   42,   42,    0,    0,   22,    0,    0,   42,    0,
-        0,    0,    0,    8,    0,    7,    0,   13,   18,    0,
-        0,   23,    0,    0,    0,   24,   26,    0,    0,   28,
-
-       31,    0,   44,    0,    0,   42,   42,   42,   42,   42,
-       35,    0,    0,    0,   42,   35,    0,    0,    0,    0,
+        0,    0,    0,    0,   52,   50,   37,   37,   44,   50,
+       50,   43,   49,   48,   43,   43,   43,   43,   46,   47,
+       50,   37,   37,   50,   23,   50,   43,   50,    5,    4,
+        5,    5,    5,    5,    8,   11,   10,    9,   16,   15,
+       16,   22,   21,   22,   31,   30,   31,   31,   31,   31,
+       35,   34,   35,    0,   17,   12,    0,   43,   43,   43,
+       43,   43,   43,    0,    0,   23,    0,    0,   43,    0,
+        0,    0,    0,    8,    0,    0,    7,    0,   14,   19,
+        0,    0,   24,    0,    0,    0,   25,   27,    0,    0,
+
+       29,   32,    0,   45,    0,    0,   43,   43,   43,   43,
+       43,   36,    0,    0,    0,   43,   36,    0,    0,    0,
         0,    0,    0,    0,    0,    0,    0,    0,    0,    0,
-       17,   12,   40,   42,   42,   42,   42,    0,    0,   42,
-        0,    0,    0,    0,    0,    0,    0,    0,    0,   19,
-       25,   27,   32,   42,   42,   42,   39,    0,    0,   42,
-        0,    0,    0,    0,    0,    0,   37,   38,   42,    0,
-        0,   42,    0,    0,    0,    0,    0,   41,    0,    0,
-       42,    0,    0,    0,    0,    0,    0,    0,    6,   42,
-        0,    0,    0,    0,    0,    0,    0,   42,    0,    0,
-
-        0,    0,    0,   42,    0,    0,    0,    0,    0,    0,
-       42,    0,    0,    0,    0,   42,    0,    0,    0,    2,
-        0,   42,    0,    0,    2,    0,   42,    0,    0,    0,
-       42,    0,    0,    0,    0,   42,    0,    0,    0,   42,
-        0,    0,    0,   42,    0,    0,    3,    0,   42,    0,
-        3,    0,    0,    0,    0,    0,    0,    0,    0,    0,
-        0,    0,    0,    1,    0,    1,    0,    0,    0,    0
+        0,   18,   13,   41,   43,   43,   43,   43,    0,    0,
+       43,    0,    0,    0,    0,    0,    0,    0,    0,    0,
+       20,   26,   28,   33,   43,   43,   43,   40,    0,    0,
+       43,    0,    0,    0,    0,    0,    0,   38,   39,   43,
+        0,    0,   43,    0,    0,    0,    0,    0,   42,    0,
+        0,   43,    0,    0,    0,    0,    0,    0,    0,    6,
+       43,    0,    0,    0,    0,    0,    0,    0,   43,    0,
+
+        0,    0,    0,    0,   43,    0,    0,    0,    0,    0,
+        0,   43,    0,    0,    0,    0,   43,    0,    0,    0,
+        2,    0,   43,    0,    0,    2,    0,   43,    0,    0,
+        0,   43,    0,    0,    0,    0,   43,    0,    0,    0,
+       43,    0,    0,    0,   43,    0,    0,    3,    0,   43,
+        0,    3,    0,    0,    0,    0,    0,    0,    0,    0,
+        0,    0,    0,    0,    1,    0,    1,    0,    0,    0,
+        0
     } ;
 
 static const YY_CHAR yy_ec[256] =
@@ -455,77 +456,77 @@ static const YY_CHAR yy_meta[52] =
         1
     } ;
 
-static const flex_int16_t yy_base[284] =
+static const flex_int16_t yy_base[285] =
     {   0,
-        0,   50,  494,   56,   60,   64,   53,   61,   65,   67,
-       68,   80,   82,   87,  496,  498,  498,  498,  498,  482,
-       85,    0,  498,  498,   35,  452,  448,  455,  498,  498,
-      442,  103,  111,  464,  498,  451,  448,  438,  498,  498,
-      460,  480,  472,   92,    0,  498,  498,  117,  498,  498,
-      121,  498,  498,   88,  498,  498,   94,  100,  114,  127,
-      498,  498,  117,  470,  498,  498,  131,    0,  439,  439,
-      440,  440,  444,  427,  135,  498,  130,  437,  446,  424,
-      133,   64,  131,    0,  152,  498,  156,  498,  498,  160,
-      133,  498,  165,  144,  170,  498,  498,  174,  178,  498,
-
-      498,  182,  498,  186,  179,  437,  440,  428,  438,  431,
-      498,  179,  445,  425,  429,  195,  189,  173,  453,  438,
-      420,  433,  205,  447,  211,  219,  224,  198,  228,  446,
-      498,  498,    0,  419,  428,  426,  419,  415,  420,  412,
-      426,  413,  445,  437,  227,  160,  219,  411,  407,  498,
-      498,  498,  498,  409,  403,  412,    0,  414,  404,  406,
-      414,  410,  225,  233,  408,  417,    0,    0,  403,  398,
-      397,  404,  228,  392,  405,  388,  397,    0,  387,  245,
-      385,  236,  170,  390,  250,  391,  394,  388,  498,  388,
-      395,  395,  253,  198,  381,  383,  388,  378,  258,  385,
-
-      373,  252,  364,  365,  261,  376,  354,  367,  351,  331,
-      339,  342,  264,  317,  322,  322,  326,  267,  255,    0,
-      320,  322,  325,  328,    0,  329,  310,  316,  275,  312,
-      321,  258,  289,  335,  304,  305,  309,  319,  290,  297,
-      292,  282,  304,  275,  297,  283,    0,  261,  291,  259,
-        0,  241,  223,  196,  300,  151,  303,  107,  306,  138,
-      294,  314,  297,    0,   91,    0,  328,  331,   76,  498,
-      367,  371,  375,  379,  383,  387,   71,  391,  395,  399,
-      403,  407,  411
+        0,   50,  498,   56,   60,   64,   53,   61,   65,   67,
+       68,   80,   82,   87,  500,  502,  502,  502,  502,  486,
+       85,    0,  502,  502,   35,  456,  452,  459,  502,  502,
+      446,  103,  111,  468,  502,  455,  452,  442,  502,  502,
+      464,  484,  476,   92,  460,  502,  502,  117,  502,  502,
+      121,  502,  502,   88,  502,  502,   94,  100,  114,  127,
+      502,  502,  119,  473,  502,  502,  132,    0,  442,  442,
+      443,  443,  447,  430,  140,  502,  123,  440,  449,  427,
+      133,   64,  132,  449,  448,  149,  502,  153,  502,  502,
+      158,  156,  502,  162,  157,  168,  502,  502,  172,  176,
+
+      502,  502,  183,  502,  187,  180,  438,  441,  429,  439,
+      432,  502,  180,  446,  426,  430,  196,  190,  182,  454,
+      439,  421,  434,  206,  448,  212,  218,  228,  211,  232,
+      447,  502,  502,    0,  420,  429,  427,  420,  416,  421,
+      413,  427,  414,  446,  438,  231,  220,  231,  412,  408,
+      502,  502,  502,  502,  410,  404,  413,    0,  415,  405,
+      407,  415,  411,  234,  234,  409,  418,    0,    0,  404,
+      399,  398,  405,  237,  393,  406,  389,  398,    0,  388,
+      255,  386,  246,  252,  391,  249,  392,  395,  389,  502,
+      389,  395,  392,  260,  147,  375,  374,  376,  363,  263,
+
+      371,  336,  208,  330,  334,  271,  348,  329,  342,  352,
+      332,  341,  344,  274,  318,  323,  322,  326,  277,  236,
+        0,  320,  322,  321,  324,    0,  324,  305,  310,  285,
+      300,  316,  264,  288,  329,  289,  290,  294,  297,  269,
+      276,  299,  251,  261,  209,  302,  267,    0,  200,  279,
+      202,    0,  172,  167,  167,  310,  145,  313,  132,  316,
+      126,  293,  324,  304,    0,   91,    0,  327,  338,   76,
+      502,  374,  378,  382,  386,  390,  394,   71,  398,  402,
+      406,  410,  414,  418
     } ;
 
-static const flex_int16_t yy_def[284] =
+static const flex_int16_t yy_def[285] =
     {   0,
-      270,    1,  271,  271,  272,  272,  273,  273,  274,  274,
-      275,  275,  276,  276,  270,  270,  270,  270,  270,  270,
-      270,  277,  270,  270,  277,  277,  277,  277,  270,  270,
-      270,  270,  270,  270,  270,  270,  277,  270,  270,  270,
-      270,  270,  270,  270,  278,  270,  270,  278,  270,  270,
-      270,  270,  270,  270,  270,  270,  279,  280,  270,  270,
-      270,  270,  270,  270,  270,  270,  270,  277,  277,  277,
-      277,  277,  277,  270,  270,  270,  270,  270,  277,  270,
-      270,  270,  270,  278,  270,  270,  270,  270,  270,  270,
-      279,  270,  279,  280,  280,  270,  270,  270,  270,  270,
-
-      270,  270,  270,  270,  270,  277,  277,  277,  277,  277,
-      270,  270,  270,  270,  277,  270,  270,  270,  270,  270,
-      270,  270,  270,  270,  279,  280,  270,  270,  270,  270,
-      270,  270,  277,  277,  277,  277,  277,  270,  270,  277,
-      270,  270,  270,  270,  270,  270,  270,  270,  270,  270,
-      270,  270,  270,  277,  277,  277,  277,  270,  270,  277,
-      270,  270,  270,  270,  270,  270,  277,  277,  277,  270,
-      270,  277,  270,  270,  270,  270,  270,  277,  270,  270,
-      277,  270,  270,  270,  270,  270,  270,  270,  270,  277,
-      270,  270,  270,  270,  270,  270,  270,  277,  270,  270,
-
-      270,  270,  270,  277,  270,  270,  270,  270,  270,  270,
-      277,  270,  270,  270,  270,  277,  270,  270,  270,  281,
-      270,  277,  270,  270,  281,  270,  277,  270,  270,  270,
-      277,  270,  270,  270,  270,  277,  270,  270,  270,  277,
-      270,  270,  270,  277,  270,  270,  282,  270,  277,  270,
-      282,  270,  270,  270,  270,  270,  270,  270,  270,  270,
-      270,  270,  270,  283,  270,  283,  270,  270,  270,    0,
-      270,  270,  270,  270,  270,  270,  270,  270,  270,  270,
-      270,  270,  270
+      271,    1,  272,  272,  273,  273,  274,  274,  275,  275,
+      276,  276,  277,  277,  271,  271,  271,  271,  271,  271,
+      271,  278,  271,  271,  278,  278,  278,  278,  271,  271,
+      271,  271,  271,  271,  271,  271,  278,  271,  271,  271,
+      271,  271,  271,  271,  279,  271,  271,  279,  271,  271,
+      271,  271,  271,  271,  271,  271,  280,  281,  271,  271,
+      271,  271,  271,  271,  271,  271,  271,  278,  278,  278,
+      278,  278,  278,  271,  271,  271,  271,  271,  278,  271,
+      271,  271,  271,  279,  279,  271,  271,  271,  271,  271,
+      271,  280,  271,  280,  281,  281,  271,  271,  271,  271,
+
+      271,  271,  271,  271,  271,  271,  278,  278,  278,  278,
+      278,  271,  271,  271,  271,  278,  271,  271,  271,  271,
+      271,  271,  271,  271,  271,  280,  281,  271,  271,  271,
+      271,  271,  271,  278,  278,  278,  278,  278,  271,  271,
+      278,  271,  271,  271,  271,  271,  271,  271,  271,  271,
+      271,  271,  271,  271,  278,  278,  278,  278,  271,  271,
+      278,  271,  271,  271,  271,  271,  271,  278,  278,  278,
+      271,  271,  278,  271,  271,  271,  271,  271,  278,  271,
+      271,  278,  271,  271,  271,  271,  271,  271,  271,  271,
+      278,  271,  271,  271,  271,  271,  271,  271,  278,  271,
+
+      271,  271,  271,  271,  278,  271,  271,  271,  271,  271,
+      271,  278,  271,  271,  271,  271,  278,  271,  271,  271,
+      282,  271,  278,  271,  271,  282,  271,  278,  271,  271,
+      271,  278,  271,  271,  271,  271,  278,  271,  271,  271,
+      278,  271,  271,  271,  278,  271,  271,  283,  271,  278,
+      271,  283,  271,  271,  271,  271,  271,  271,  271,  271,
+      271,  271,  271,  271,  284,  271,  284,  271,  271,  271,
+        0,  271,  271,  271,  271,  271,  271,  271,  271,  271,
+      271,  271,  271,  271
     } ;
 
-static const flex_int16_t yy_nxt[550] =
+static const flex_int16_t yy_nxt[554] =
     {   0,
        16,   17,   18,   16,   17,   16,   16,   16,   16,   19,
        19,   16,   20,   21,   22,   22,   23,   24,   22,   22,
@@ -535,61 +536,62 @@ static const flex_int16_t yy_nxt[550] =
        31,   32,   33,   34,   32,   50,   35,   36,   40,   41,
        42,   46,   47,   50,   46,   46,   47,   53,   46,   53,
        56,   69,   37,   57,   68,   54,   58,   54,   70,   51,
-      254,   59,   56,   43,   62,   57,   48,   51,   58,   62,
-       48,  119,   63,   59,   60,   65,   82,   63,   66,   92,
-
-       38,   89,   44,   83,   75,   75,   60,   75,   92,   76,
-      119,   67,   75,   75,   90,   75,  267,   76,   85,   86,
-       93,   85,   87,   88,   96,   87,   95,   97,   99,  100,
-      101,   99,  104,  105,  120,  104,   75,   75,   92,   75,
-       98,   76,  238,  102,  112,  112,  112,  117,  117,  117,
-      264,  121,   92,   85,   86,  122,   85,   87,   88,   93,
-       87,  123,  124,  161,  123,  113,  125,   91,  118,  125,
-       95,  126,   94,  191,  126,  127,  128,  143,  127,   99,
-      100,  162,   99,  129,  130,  261,  129,  104,  105,  131,
-      104,  162,  132,  112,  112,  112,   75,   75,  141,   75,
-
-      144,   76,  142,  117,  117,  117,  123,  124,  151,  123,
-      258,  152,  125,   91,  113,  125,   92,  138,  121,  145,
-      126,   94,  122,  126,  118,  127,  128,   92,  127,  129,
-      130,   82,  129,  163,  163,  163,  175,   93,   83,  163,
-      163,  163,  182,  182,  182,   95,  189,  189,  257,  189,
-      182,  182,  182,  121,  164,  208,  209,  122,  224,  209,
-      164,  237,  238,  183,  193,  193,  193,  193,  193,  193,
-      256,  183,  205,  205,  205,  205,  205,  205,  218,  218,
-      218,  218,  218,  218,  255,  194,  250,  238,  194,  233,
-      233,  233,  252,  206,  253,  254,  206,  253,  254,  219,
-
-      265,  254,  219,  233,  233,  233,  245,  245,  245,  249,
-      234,  245,  245,  245,  259,  259,  259,  262,  262,  262,
-      259,  259,  259,  248,  234,  247,  244,  246,  262,  262,
-      262,  243,  246,  242,  241,  260,  240,  239,  263,  209,
-      236,  260,  268,  268,  268,  268,  268,  268,  235,  263,
-      232,  231,  230,  229,  228,  227,  226,  223,  222,  221,
-      220,  217,  216,  269,  215,  214,  269,   39,   39,   39,
-       39,   45,   45,   45,   45,   49,   49,   49,   49,   52,
-       52,   52,   52,   55,   55,   55,   55,   61,   61,   61,
-       61,   84,  213,  212,   84,   91,   91,  162,   91,   94,
-
-       94,  211,   94,  225,  225,  210,  225,  251,  251,  166,
-      251,  266,  266,  207,  266,  204,  203,  202,  201,  200,
-      199,  198,  197,  196,  195,  192,  190,  188,  187,  186,
-      185,  184,  181,  180,  179,  178,  177,  176,  174,  173,
-      172,  171,  170,  169,  168,  167,  166,  165,   83,   82,
-       78,   77,  160,  159,  158,  157,  156,  155,  154,  153,
-      150,  149,  148,  147,  146,  140,  139,  138,  137,  136,
-      135,  134,  133,  116,  115,  114,  111,  110,  109,  108,
-      107,  106,  103,   83,   82,   81,   80,   79,   78,   77,
-       74,   73,   72,   71,   64,  270,   40,   15,  270,  270,
-
-      270,  270,  270,  270,  270,  270,  270,  270,  270,  270,
-      270,  270,  270,  270,  270,  270,  270,  270,  270,  270,
-      270,  270,  270,  270,  270,  270,  270,  270,  270,  270,
-      270,  270,  270,  270,  270,  270,  270,  270,  270,  270,
-      270,  270,  270,  270,  270,  270,  270,  270,  270
+      255,   59,   56,   43,   62,   57,   48,   51,   58,   62,
+       48,  120,   63,   59,   60,   65,   82,   63,   66,   93,
+
+       38,   90,   44,   83,   75,   75,   60,   75,   93,   76,
+      120,   67,   75,   75,   91,   75,  268,   76,   86,   87,
+       94,   86,   88,   89,   97,   88,   96,   98,  100,  101,
+      239,  100,  102,  105,  106,  121,  105,  113,  113,  113,
+       99,   75,   75,   85,   75,  103,   76,  118,  118,  118,
+       86,   87,  122,   86,   88,   89,  123,   88,  114,  124,
+      125,   93,  124,  126,   92,   93,  126,  122,  119,  127,
+       95,  123,  127,  128,  129,  265,  128,  100,  101,  262,
+      100,  259,   94,   96,  130,  131,  144,  130,  105,  106,
+      132,  105,  258,  133,  113,  113,  113,   75,   75,  142,
+
+       75,  257,   76,  143,  118,  118,  118,  124,  125,  145,
+      124,  209,  210,  126,   92,  114,  126,   93,  139,  127,
+       95,  152,  127,  162,  153,  119,   93,  256,  146,  128,
+      129,  253,  128,  130,  131,   82,  130,  176,   94,  225,
+      210,  163,   83,  250,   96,  164,  164,  164,  164,  164,
+      164,  183,  183,  183,  122,  192,  190,  190,  123,  190,
+      183,  183,  183,  194,  194,  194,  165,  238,  239,  165,
+      251,  239,  184,  163,  194,  194,  194,  206,  206,  206,
+      249,  184,  254,  255,  195,  206,  206,  206,  219,  219,
+      219,  219,  219,  219,  248,  195,  254,  255,  207,  234,
+
+      234,  234,  234,  234,  234,  245,  207,  266,  255,  220,
+      244,  243,  220,  246,  246,  246,  246,  246,  246,  242,
+      235,  241,  240,  235,  260,  260,  260,  263,  263,  263,
+      260,  260,  260,  210,  247,  237,  236,  247,  263,  263,
+      263,  269,  269,  269,  233,  261,  232,  231,  264,  230,
+      229,  261,  269,  269,  269,  228,  227,  224,  223,  264,
+      222,  221,  270,  218,  217,  216,  215,  214,  213,  163,
+      212,  211,  167,  270,   39,   39,   39,   39,   45,   45,
+       45,   45,   49,   49,   49,   49,   52,   52,   52,   52,
+       55,   55,   55,   55,   61,   61,   61,   61,   84,  208,
+
+      205,   84,   92,   92,  204,   92,   95,   95,  203,   95,
+      226,  226,  202,  226,  252,  252,  201,  252,  267,  267,
+      200,  267,  199,  198,  197,  196,  193,  191,  189,  188,
+      187,  186,  185,  182,  181,  180,  179,  178,  177,  175,
+      174,  173,  172,  171,  170,  169,  168,  167,  166,   83,
+       82,   78,   77,  161,  160,  159,  158,  157,  156,  155,
+      154,  151,  150,  149,  148,  147,  141,  140,  139,  138,
+      137,  136,  135,  134,   85,   85,  117,  116,  115,  112,
+      111,  110,  109,  108,  107,  104,   85,   83,   82,   81,
+       80,   79,   78,   77,   74,   73,   72,   71,   64,  271,
+
+       40,   15,  271,  271,  271,  271,  271,  271,  271,  271,
+      271,  271,  271,  271,  271,  271,  271,  271,  271,  271,
+      271,  271,  271,  271,  271,  271,  271,  271,  271,  271,
+      271,  271,  271,  271,  271,  271,  271,  271,  271,  271,
+      271,  271,  271,  271,  271,  271,  271,  271,  271,  271,
+      271,  271,  271
     } ;
 
-static const flex_int16_t yy_chk[550] =
+static const flex_int16_t yy_chk[554] =
     {   0,
         1,    1,    1,    1,    1,    1,    1,    1,    1,    1,
         1,    1,    1,    1,    1,    1,    1,    1,    1,    1,
@@ -598,67 +600,68 @@ static const flex_int16_t yy_chk[550] =
         1,    1,    1,    1,    1,    1,    1,    1,    1,    1,
         1,    2,    2,    2,    2,    7,    2,    2,    4,    4,
         4,    5,    5,    8,    5,    6,    6,    9,    6,   10,
-       11,   25,    2,   11,  277,    9,   11,   10,   25,    7,
-      269,   11,   12,    4,   13,   12,    5,    8,   12,   14,
+       11,   25,    2,   11,  278,    9,   11,   10,   25,    7,
+      270,   11,   12,    4,   13,   12,    5,    8,   12,   14,
         6,   82,   13,   12,   11,   21,   44,   14,   21,   57,
 
         2,   54,    4,   44,   32,   32,   12,   32,   58,   32,
-       82,   21,   33,   33,   54,   33,  265,   33,   48,   48,
+       82,   21,   33,   33,   54,   33,  266,   33,   48,   48,
        57,   48,   51,   51,   59,   51,   58,   59,   60,   60,
-       63,   60,   67,   67,   83,   67,   75,   75,   91,   75,
-       59,   75,  260,   63,   77,   77,   77,   81,   81,   81,
-      258,   83,   94,   85,   85,   83,   85,   87,   87,   91,
-       87,   90,   90,  146,   90,   77,   93,   93,   81,   93,
-       94,   95,   95,  183,   95,   98,   98,  118,   98,   99,
-       99,  146,   99,  102,  102,  256,  102,  104,  104,  105,
-      104,  183,  105,  112,  112,  112,  116,  116,  116,  116,
-
-      118,  116,  116,  117,  117,  117,  123,  123,  128,  123,
-      254,  128,  125,  125,  112,  125,  125,  116,  194,  118,
-      126,  126,  194,  126,  117,  127,  127,  126,  127,  129,
-      129,  145,  129,  147,  147,  147,  164,  125,  145,  163,
-      163,  163,  173,  173,  173,  126,  180,  180,  253,  180,
-      182,  182,  182,  164,  147,  202,  202,  164,  219,  219,
-      163,  232,  232,  173,  185,  185,  185,  193,  193,  193,
-      252,  182,  199,  199,  199,  205,  205,  205,  213,  213,
-      213,  218,  218,  218,  250,  185,  246,  246,  193,  229,
-      229,  229,  248,  199,  249,  249,  205,  261,  261,  213,
-
-      263,  263,  218,  233,  233,  233,  241,  241,  241,  244,
-      229,  245,  245,  245,  255,  255,  255,  257,  257,  257,
-      259,  259,  259,  243,  233,  242,  240,  241,  262,  262,
-      262,  239,  245,  238,  237,  255,  236,  235,  257,  234,
-      231,  259,  267,  267,  267,  268,  268,  268,  230,  262,
-      228,  227,  226,  224,  223,  222,  221,  217,  216,  215,
-      214,  212,  211,  267,  210,  209,  268,  271,  271,  271,
-      271,  272,  272,  272,  272,  273,  273,  273,  273,  274,
-      274,  274,  274,  275,  275,  275,  275,  276,  276,  276,
-      276,  278,  208,  207,  278,  279,  279,  206,  279,  280,
-
-      280,  204,  280,  281,  281,  203,  281,  282,  282,  201,
-      282,  283,  283,  200,  283,  198,  197,  196,  195,  192,
-      191,  190,  188,  187,  186,  184,  181,  179,  177,  176,
-      175,  174,  172,  171,  170,  169,  166,  165,  162,  161,
-      160,  159,  158,  156,  155,  154,  149,  148,  144,  143,
-      142,  141,  140,  139,  138,  137,  136,  135,  134,  130,
-      124,  122,  121,  120,  119,  115,  114,  113,  110,  109,
-      108,  107,  106,   80,   79,   78,   74,   73,   72,   71,
-       70,   69,   64,   43,   42,   41,   38,   37,   36,   34,
-       31,   28,   27,   26,   20,   15,    3,  270,  270,  270,
-
-      270,  270,  270,  270,  270,  270,  270,  270,  270,  270,
-      270,  270,  270,  270,  270,  270,  270,  270,  270,  270,
-      270,  270,  270,  270,  270,  270,  270,  270,  270,  270,
-      270,  270,  270,  270,  270,  270,  270,  270,  270,  270,
-      270,  270,  270,  270,  270,  270,  270,  270,  270
+      261,   60,   63,   67,   67,   83,   67,   77,   77,   77,
+       59,   75,   75,   48,   75,   63,   75,   81,   81,   81,
+       86,   86,   83,   86,   88,   88,   83,   88,   77,   91,
+       91,   92,   91,   94,   94,   95,   94,  195,   81,   96,
+       96,  195,   96,   99,   99,  259,   99,  100,  100,  257,
+      100,  255,   92,   95,  103,  103,  119,  103,  105,  105,
+      106,  105,  254,  106,  113,  113,  113,  117,  117,  117,
+
+      117,  253,  117,  117,  118,  118,  118,  124,  124,  119,
+      124,  203,  203,  126,  126,  113,  126,  126,  117,  127,
+      127,  129,  127,  147,  129,  118,  127,  251,  119,  128,
+      128,  249,  128,  130,  130,  146,  130,  165,  126,  220,
+      220,  147,  146,  245,  127,  148,  148,  148,  164,  164,
+      164,  174,  174,  174,  165,  184,  181,  181,  165,  181,
+      183,  183,  183,  186,  186,  186,  148,  233,  233,  164,
+      247,  247,  174,  184,  194,  194,  194,  200,  200,  200,
+      244,  183,  250,  250,  186,  206,  206,  206,  214,  214,
+      214,  219,  219,  219,  243,  194,  262,  262,  200,  230,
+
+      230,  230,  234,  234,  234,  241,  206,  264,  264,  214,
+      240,  239,  219,  242,  242,  242,  246,  246,  246,  238,
+      230,  237,  236,  234,  256,  256,  256,  258,  258,  258,
+      260,  260,  260,  235,  242,  232,  231,  246,  263,  263,
+      263,  268,  268,  268,  229,  256,  228,  227,  258,  225,
+      224,  260,  269,  269,  269,  223,  222,  218,  217,  263,
+      216,  215,  268,  213,  212,  211,  210,  209,  208,  207,
+      205,  204,  202,  269,  272,  272,  272,  272,  273,  273,
+      273,  273,  274,  274,  274,  274,  275,  275,  275,  275,
+      276,  276,  276,  276,  277,  277,  277,  277,  279,  201,
+
+      199,  279,  280,  280,  198,  280,  281,  281,  197,  281,
+      282,  282,  196,  282,  283,  283,  193,  283,  284,  284,
+      192,  284,  191,  189,  188,  187,  185,  182,  180,  178,
+      177,  176,  175,  173,  172,  171,  170,  167,  166,  163,
+      162,  161,  160,  159,  157,  156,  155,  150,  149,  145,
+      144,  143,  142,  141,  140,  139,  138,  137,  136,  135,
+      131,  125,  123,  122,  121,  120,  116,  115,  114,  111,
+      110,  109,  108,  107,   85,   84,   80,   79,   78,   74,
+       73,   72,   71,   70,   69,   64,   45,   43,   42,   41,
+       38,   37,   36,   34,   31,   28,   27,   26,   20,   15,
+
+        3,  271,  271,  271,  271,  271,  271,  271,  271,  271,
+      271,  271,  271,  271,  271,  271,  271,  271,  271,  271,
+      271,  271,  271,  271,  271,  271,  271,  271,  271,  271,
+      271,  271,  271,  271,  271,  271,  271,  271,  271,  271,
+      271,  271,  271,  271,  271,  271,  271,  271,  271,  271,
+      271,  271,  271
     } ;
 
 /* Table of booleans, true if rule could match eol. */
-static const flex_int32_t yy_rule_can_match_eol[51] =
+static const flex_int32_t yy_rule_can_match_eol[52] =
     {   0,
-0, 0, 0, 1, 0, 1, 1, 0, 1, 0, 0, 1, 1, 1, 0, 0, 1, 0, 1, 
-    1, 0, 1, 1, 0, 1, 0, 1, 1, 1, 0, 0, 1, 1, 0, 0, 1, 0, 0, 0, 
-    0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0,     };
+0, 0, 0, 1, 0, 1, 1, 0, 0, 1, 0, 0, 1, 1, 1, 0, 0, 1, 0, 
+    1, 1, 0, 1, 1, 0, 1, 0, 1, 1, 1, 0, 0, 1, 1, 0, 0, 1, 0, 0, 
+    0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0,     };
 
 static yy_state_type yy_last_accepting_state;
 static char *yy_last_accepting_cpos;
@@ -967,13 +970,13 @@ yy_match:
 			while ( yy_chk[yy_base[yy_current_state] + yy_c] != yy_current_state )
 				{
 				yy_current_state = (int) yy_def[yy_current_state];
-				if ( yy_current_state >= 271 )
+				if ( yy_current_state >= 272 )
 					yy_c = yy_meta[yy_c];
 				}
 			yy_current_state = yy_nxt[yy_base[yy_current_state] + yy_c];
 			++yy_cp;
 			}
-		while ( yy_current_state != 270 );
+		while ( yy_current_state != 271 );
 		yy_cp = (yy_last_accepting_cpos);
 		yy_current_state = (yy_last_accepting_state);
 
@@ -1026,6 +1029,10 @@ YY_RULE_SETUP
 	YY_BREAK
 case 6:
 /* rule 6 can match eol */
+*yy_cp = (yy_hold_char); /* undo effects of setting up yytext */
+YY_LINENO_REWIND_TO(yy_cp - 1);
+(yy_c_buf_p) = yy_cp -= 1;
+YY_DO_BEFORE_ACTION; /* set up yytext again */
 YY_RULE_SETUP
 { BEGIN(OPTION); /* %option line */ }
 	YY_BREAK
@@ -1039,164 +1046,164 @@ YY_RULE_SETUP
 { return LEX_OPTION; }
 	YY_BREAK
 case 9:
-/* rule 9 can match eol */
 YY_RULE_SETUP
-{ BEGIN(INITIAL); /* end */}
+{ return LEX_OPTION; }
 	YY_BREAK
 case 10:
+/* rule 10 can match eol */
 YY_RULE_SETUP
-{ }
+{ BEGIN(INITIAL); /* end */}
 	YY_BREAK
 case 11:
 YY_RULE_SETUP
-{ BEGIN(COMMENT); /* simple comment */ }
+{ }
 	YY_BREAK
 case 12:
-/* rule 12 can match eol */
 YY_RULE_SETUP
 { BEGIN(COMMENT); /* simple comment */ }
 	YY_BREAK
 case 13:
 /* rule 13 can match eol */
 YY_RULE_SETUP
-{ /* line split */ }
+{ BEGIN(COMMENT); /* simple comment */ }
 	YY_BREAK
 case 14:
 /* rule 14 can match eol */
 YY_RULE_SETUP
-{ BEGIN(INITIAL); /* end */ }
+{ /* line split */ }
 	YY_BREAK
 case 15:
+/* rule 15 can match eol */
 YY_RULE_SETUP
-{ }
+{ BEGIN(INITIAL); /* end */ }
 	YY_BREAK
 case 16:
 YY_RULE_SETUP
-{ BEGIN(C_COMMENT); /* C comment */ }
+{ }
 	YY_BREAK
 case 17:
-/* rule 17 can match eol */
 YY_RULE_SETUP
 { BEGIN(C_COMMENT); /* C comment */ }
 	YY_BREAK
 case 18:
+/* rule 18 can match eol */
 YY_RULE_SETUP
-{ BEGIN(INITIAL); /* end */ }
+{ BEGIN(C_COMMENT); /* C comment */ }
 	YY_BREAK
 case 19:
-/* rule 19 can match eol */
 YY_RULE_SETUP
 { BEGIN(INITIAL); /* end */ }
 	YY_BREAK
-case YY_STATE_EOF(C_COMMENT):
-case YY_STATE_EOF(PRE_COMMENT):
-{ set_unterminated_comment(); return LEX_ERROR; }
-	YY_BREAK
 case 20:
 /* rule 20 can match eol */
 YY_RULE_SETUP
-{ }
+{ BEGIN(INITIAL); /* end */ }
+	YY_BREAK
+case YY_STATE_EOF(C_COMMENT):
+case YY_STATE_EOF(PRE_COMMENT):
+{ set_unterminated_comment(); return LEX_ERROR; }
 	YY_BREAK
 case 21:
+/* rule 21 can match eol */
 YY_RULE_SETUP
 { }
 	YY_BREAK
 case 22:
-/* rule 22 can match eol */
 YY_RULE_SETUP
-{ BEGIN(PRE); }
+{ }
 	YY_BREAK
 case 23:
 /* rule 23 can match eol */
 YY_RULE_SETUP
-{ /* "/*" and "//" don't begin a comment here */ }
+{ BEGIN(PRE); }
 	YY_BREAK
 case 24:
+/* rule 24 can match eol */
 YY_RULE_SETUP
-{ BEGIN(PRE_COMMENT); /* C comment within PRE line */ }
+{ /* "/*" and "//" don't begin a comment here */ }
 	YY_BREAK
 case 25:
-/* rule 25 can match eol */
 YY_RULE_SETUP
 { BEGIN(PRE_COMMENT); /* C comment within PRE line */ }
 	YY_BREAK
 case 26:
+/* rule 26 can match eol */
 YY_RULE_SETUP
-{ BEGIN(COMMENT); /* simple comment */ }
+{ BEGIN(PRE_COMMENT); /* C comment within PRE line */ }
 	YY_BREAK
 case 27:
-/* rule 27 can match eol */
 YY_RULE_SETUP
 { BEGIN(COMMENT); /* simple comment */ }
 	YY_BREAK
 case 28:
 /* rule 28 can match eol */
 YY_RULE_SETUP
-{ /* line split */ }
+{ BEGIN(COMMENT); /* simple comment */ }
 	YY_BREAK
 case 29:
 /* rule 29 can match eol */
 YY_RULE_SETUP
-{ BEGIN(INITIAL); /* end */ }
+{ /* line split */ }
 	YY_BREAK
 case 30:
+/* rule 30 can match eol */
 YY_RULE_SETUP
-{ }
+{ BEGIN(INITIAL); /* end */ }
 	YY_BREAK
 case 31:
 YY_RULE_SETUP
-{ BEGIN(PRE); /* continue PRE line */ }
+{ }
 	YY_BREAK
 case 32:
-/* rule 32 can match eol */
 YY_RULE_SETUP
 { BEGIN(PRE); /* continue PRE line */ }
 	YY_BREAK
 case 33:
 /* rule 33 can match eol */
 YY_RULE_SETUP
-{ /* the PRE line goes on behind the comment */ }
+{ BEGIN(PRE); /* continue PRE line */ }
 	YY_BREAK
 case 34:
+/* rule 34 can match eol */
 YY_RULE_SETUP
-{ }
+{ /* the PRE line goes on behind the comment */ }
 	YY_BREAK
 case 35:
 YY_RULE_SETUP
-{ /* UTF-8 byte order mark */ }
+{ }
 	YY_BREAK
 case 36:
-/* rule 36 can match eol */
 YY_RULE_SETUP
-{ }
+{ /* UTF-8 byte order mark */ }
 	YY_BREAK
 case 37:
+/* rule 37 can match eol */
 YY_RULE_SETUP
-{ /* ignore "extern" keyword */ }
+{ }
 	YY_BREAK
 case 38:
 YY_RULE_SETUP
-{ return LEX_STRUCT; }
+{ /* ignore "extern" keyword */ }
 	YY_BREAK
 case 39:
 YY_RULE_SETUP
-{ return LEX_UNION; }
+{ return LEX_STRUCT; }
 	YY_BREAK
 case 40:
 YY_RULE_SETUP
-{ return LEX_ENUM; }
+{ return LEX_UNION; }
 	YY_BREAK
 case 41:
 YY_RULE_SETUP
-{ return LEX_TYPEDEF; }
+{ return LEX_ENUM; }
 	YY_BREAK
 case 42:
 YY_RULE_SETUP
-{ return LEX_ID; }
+{ return LEX_TYPEDEF; }
 	YY_BREAK
 case 43:
 YY_RULE_SETUP
-{ return LEX_OTHER; }
+{ return LEX_ID; }
 	YY_BREAK
 case 44:
 YY_RULE_SETUP
@@ -1204,26 +1211,30 @@ YY_RULE_SETUP
 	YY_BREAK
 case 45:
 YY_RULE_SETUP
-{ return LEX_CURLY_OPEN; }
+{ return LEX_OTHER; }
 	YY_BREAK
 case 46:
 YY_RULE_SETUP
-{ return LEX_CURLY_CLOSE; }
+{ return LEX_CURLY_OPEN; }
 	YY_BREAK
 case 47:
 YY_RULE_SETUP
-{ return LEX_EQUAL; }
+{ return LEX_CURLY_CLOSE; }
 	YY_BREAK
 case 48:
 YY_RULE_SETUP
-{ return LEX_SEMICOLON; }
+{ return LEX_EQUAL; }
 	YY_BREAK
 case 49:
 YY_RULE_SETUP
-{ set_illegal_char(); return LEX_ERROR; }
+{ return LEX_SEMICOLON; }
 	YY_BREAK
 case 50:
 YY_RULE_SETUP
+{ set_illegal_char(); return LEX_ERROR; }
+	YY_BREAK
+case 51:
+YY_RULE_SETUP
 ECHO;
 	YY_BREAK
 case YY_STATE_EOF(INITIAL):
@@ -1528,7 +1539,7 @@ static int yy_get_next_buffer (void)
 		while ( yy_chk[yy_base[yy_current_state] + yy_c] != yy_current_state )
 			{
 			yy_current_state = (int) yy_def[yy_current_state];
-			if ( yy_current_state >= 271 )
+			if ( yy_current_state >= 272 )
 				yy_c = yy_meta[yy_c];
 			}
 		yy_current_state = yy_nxt[yy_base[yy_current_state] + yy_c];
@@ -1556,11 +1567,11 @@ static int yy_get_next_buffer (void)
 	while ( yy_chk[yy_base[yy_current_state] + yy_c] != yy_current_state )
 		{
 		yy_current_state = (int) yy_def[yy_current_state];
-		if ( yy_current_state >= 271 )
+		if ( yy_current_state >= 272 )
 			yy_c = yy_meta[yy_c];
 		}
 	yy_current_state = yy_nxt[yy_base[yy_current_state] + yy_c];
-	yy_is_jam = (yy_current_state == 270);
+	yy_is_jam = (yy_current_state == 271);
 
 		return yy_is_jam ? 0 : yy_current_state;
 }
-- 
2.43.0


From 9991e40dd37c27fe3a3b4ce89694e820014b1c31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:47 +0000
Subject: [PATCH 11/53] fix: Clang AST: find listed symbols which also have a
 matching prefix

If a symbol given with -S also began with a string given with -P, it was
reported as missing.
---
 src/clang_ast.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/clang_ast.cpp b/src/clang_ast.cpp
index 26c8cee..34b786a 100644
--- a/src/clang_ast.cpp
+++ b/src/clang_ast.cpp
@@ -184,10 +184,13 @@ int gendlopen::get_declarations(filter::mode mode)
         break;
 
     case filter::pfx_list:
-        if (!utils::is_prefixed(proto.symbol, m_prefix_list) &&
-            std::erase(m_symbol_list, proto.symbol) == 0) /* erase from list if found */
         {
-            return 0;
+            /* always erase from list if found, even if the prefix is matching */
+            const bool listed = std::erase(m_symbol_list, proto.symbol) > 0;
+
+            if (!listed && !utils::is_prefixed(proto.symbol, m_prefix_list)) {
+                return 0;
+            }
         }
         break;
 
-- 
2.43.0


From 262a8d918e373d7238a97fb318726eb9f870f07f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:57 +0000
Subject: [PATCH 12/53] fix: Clang AST: keep the ellipsis and (void) of
 parameter lists

Variadic functions lost their `...', because there is no declaration
for it among the parameter declarations.
---
 src/clang_ast.cpp | 30 ++++++++++++++++++++++++++++--
 1 file changed, 28 insertions(+), 2 deletions(-)

diff --git a/src/clang_ast.cpp b/src/clang_ast.cpp
index 34b786a..c0688a1 100644
--- a/src/clang_ast.cpp
+++ b/src/clang_ast.cpp
@@ -129,6 +129,23 @@ bool get_parameters(std::string &args, std::string &param_names, int &param_coun
     return true;
 }
 
+
+/* check if the parameter list beginning at `pos' ends on `...' */
+bool is_variadic(const std::string &type, size_t pos)
+{
+    int scope = 0;
+
+    for ( ; pos < type.size(); pos++) {
+        if (type[pos] == '(') {
+            scope++;
+        } else if (type[pos] == ')' && --scope == 0) {
+            return type.substr(0, pos).ends_with("...");
+        }
+    }
+
+    return false;
+}
+
 } /* end anonymous namespace */
 
 
@@ -203,13 +220,15 @@ int gendlopen::get_declarations(filter::mode mode)
         size_t pos;
         int rv, param_count = 1;
 
-        if (!utils::find(m.str(2), '(', pos)) {
+        const std::string type = m.str(2);
+
+        if (!utils::find(type, '(', pos)) {
             return 0;
         }
 
         proto.prototype = proto::function;
 
-        proto.type = m.str(2).substr(0, pos);
+        proto.type = type.substr(0, pos);
         utils::strip_spaces(proto.type);
 
         /* read next lines for parameters */
@@ -219,6 +238,13 @@ int gendlopen::get_declarations(filter::mode mode)
             }
         }
 
+        /* not listed among the parameter declarations */
+        if (is_variadic(type, pos)) {
+            proto.args += "...";
+        } else if (type.compare(pos, 6, "(void)") == 0) {
+            proto.args = "void";
+        }
+
         utils::delete_suffix(proto.args, ", ");
         utils::delete_suffix(proto.param_names, ", ");
 
-- 
2.43.0


From 42164f37ab514e83d849efe9c5fe9b161651eaae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:09 +0000
Subject: [PATCH 13/53] fix: Clang AST: use a redeclared symbol only once

Headers may declare a symbol more than once (compilers also declare some
builtin functions implicitly), which gave duplicate definitions.
---
 src/clang_ast.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/clang_ast.cpp b/src/clang_ast.cpp
index c0688a1..0ac6233 100644
--- a/src/clang_ast.cpp
+++ b/src/clang_ast.cpp
@@ -54,6 +54,7 @@ TranslationUnitDecl 0x5b4b21b885b8 <<invalid sloc>> <invalid sloc>
 ***/
 
 #include <stddef.h>
+#include <algorithm>
 #include <regex>
 #include <string>
 #include <vector>
@@ -185,6 +186,15 @@ int gendlopen::get_declarations(filter::mode mode)
     proto.saved     = false;
     proto.symbol    = m.str(1);
 
+    /* redeclaration of a symbol we already have */
+    auto is_same = [&proto] (const proto_t &p) { return p.symbol == proto.symbol; };
+
+    if (std::any_of(m_prototypes.begin(), m_prototypes.end(), is_same) ||
+        std::any_of(m_objects.begin(), m_objects.end(), is_same))
+    {
+        return 0;
+    }
+
     switch (mode)
     {
     case filter::prefix:
-- 
2.43.0


From d667876bd2b079ab8a256e4f0e0d7886b0135bc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:42 +0000
Subject: [PATCH 14/53] fix: Clang AST: read return types with parentheses

The pointers in `int (*(int))' were dropped from the return type; a
function which returns a function pointer is refused now.
---
 src/clang_ast.cpp | 59 +++++++++++++++++++++++++++++++++++------------
 1 file changed, 44 insertions(+), 15 deletions(-)

diff --git a/src/clang_ast.cpp b/src/clang_ast.cpp
index 0ac6233..376278a 100644
--- a/src/clang_ast.cpp
+++ b/src/clang_ast.cpp
@@ -131,20 +131,52 @@ bool get_parameters(std::string &args, std::string &param_names, int &param_coun
 }
 
 
-/* check if the parameter list beginning at `pos' ends on `...' */
-bool is_variadic(const std::string &type, size_t pos)
+/* get return type and parameter list from a function type;
+ * parentheses around a returned pointer are kept by Clang: int (*(int)) */
+bool split_function_type(const std::string &type, std::string &ret, std::string &params)
 {
+    size_t pos, end, n = 0;
     int scope = 0;
 
-    for ( ; pos < type.size(); pos++) {
-        if (type[pos] == '(') {
+    if (!utils::find(type, '(', pos)) {
+        return false;
+    }
+
+    ret = type.substr(0, pos);
+
+    while (utils::str_at(type, pos) == '(' &&
+        (utils::str_at(type, pos + 1) == '(' || utils::str_at(type, pos + 1) == '*'))
+    {
+        n++;
+        pos++;
+
+        while (utils::str_at(type, pos) == '*') {
+            ret += '*';
+            pos++;
+        }
+    }
+
+    if (utils::str_at(type, pos) != '(') {
+        return false;
+    }
+
+    for (end = pos; end < type.size(); end++) {
+        if (type[end] == '(') {
             scope++;
-        } else if (type[pos] == ')' && --scope == 0) {
-            return type.substr(0, pos).ends_with("...");
+        } else if (type[end] == ')' && --scope == 0) {
+            break;
         }
     }
 
-    return false;
+    if (end == type.size()) {
+        return false;
+    }
+
+    params = type.substr(pos, ++end - pos);
+
+    /* must be closed and not followed by the parameters of a returned function pointer */
+    return (type.compare(end, n, std::string(n, ')')) == 0 &&
+        utils::str_at(type, end + n) != '(' && utils::str_at(type, end + n) != '[');
 }
 
 } /* end anonymous namespace */
@@ -227,18 +259,15 @@ int gendlopen::get_declarations(filter::mode mode)
 
     if (is_function) {
         /* function declaration */
-        size_t pos;
+        std::string params;
         int rv, param_count = 1;
 
-        const std::string type = m.str(2);
-
-        if (!utils::find(type, '(', pos)) {
-            return 0;
+        if (!split_function_type(m.str(2), proto.type, params)) {
+            throw error("Clang AST: unsupported type of function `" + proto.symbol + "': " + m.str(2));
         }
 
         proto.prototype = proto::function;
 
-        proto.type = type.substr(0, pos);
         utils::strip_spaces(proto.type);
 
         /* read next lines for parameters */
@@ -249,9 +278,9 @@ int gendlopen::get_declarations(filter::mode mode)
         }
 
         /* not listed among the parameter declarations */
-        if (is_variadic(type, pos)) {
+        if (params.ends_with("...)")) {
             proto.args += "...";
-        } else if (type.compare(pos, 6, "(void)") == 0) {
+        } else if (params == "(void)") {
             proto.args = "void";
         }
 
-- 
2.43.0


From 542a493cab88cf70cbc6abdea5a326812aa2a947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:49 +0000
Subject: [PATCH 15/53] fix: quote default library names which begin like a
 mode prefix

-library=engine, -library=alsa.so, -library=nvidia.so, ... were silently dropped.
---
 src/generate.cpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/generate.cpp b/src/generate.cpp
index 277aa3a..f9d3a53 100644
--- a/src/generate.cpp
+++ b/src/generate.cpp
@@ -158,9 +158,8 @@ std::string format_libname(const std::string &str, const std::string &pfx)
         /* no quotes */
         if (utils::prefixed_and_longer_case(str, "nq:")) {
             lib_a = lib_w = str.substr(3);
-            break;
         }
-        return {};
+        break;
 
     case 'E':
     case 'e':
@@ -169,9 +168,8 @@ std::string format_libname(const std::string &str, const std::string &pfx)
             auto sub = str.substr(4);
             lib_a = quote_lib(sub, false) + ' ' + pfx + "_LIBEXTA";
             lib_w = quote_lib(sub, true)  + ' ' + pfx + "_LIBEXTW";
-            break;
         }
-        return {};
+        break;
 
     case 'A':
     case 'a':
@@ -185,16 +183,18 @@ std::string format_libname(const std::string &str, const std::string &pfx)
                 /* GDO_LIBNAMEA(xxx,0) */
                 lib_a = pfx + "_LIBNAMEA(" + m[2].str() + ',' + m[1].str() + ')';
                 lib_w = pfx + "_LIBNAMEW(" + m[2].str() + ',' + m[1].str() + ')';
-                break;
             }
         }
-        return {};
+        break;
 
     default:
-        /* quote string */
+        break;
+    }
+
+    /* no mode was set: quote string */
+    if (lib_a.empty()) {
         lib_a = quote_lib(str, false);
         lib_w = quote_lib(str, true);
-        break;
     }
 
     out = "#define " + pfx + "_HARDCODED_DEFAULT_LIBA " + lib_a + '\n' +
-- 
2.43.0


From 1e72e257e091f532c275b440e9cc92c369729ac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:59 +0000
Subject: [PATCH 16/53] fix: don't alias visible wrapper functions

c.c checked a macro that is never defined, so GDO_WRAP_VISIBILITY made calls
expand to names which don't exist.
---
 src/templates/c.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/templates/c.c b/src/templates/c.c
index e9f57ca..99293f9 100644
--- a/src/templates/c.c
+++ b/src/templates/c.c
@@ -975,7 +975,7 @@ GDO_LINKAGE void _gdo_wrap_check_loaded(void *symptr, int load, const gdo_char_t
     !defined(GDO_DISABLE_ALIASING)
 
 /* aliases to raw function pointers */
-#if !defined(GDO_WRAP_IS_VISIBLE)
+#if !defined(GDO_WRAP_VISIBILITY)
 # define %%func_symbol_pad%% GDO_FUNC_ALIAS(%%func_symbol%%)
 #endif
 
-- 
2.43.0


From b24d9a820960cae4030525b75fd106ded1c46491 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:59 +0000
Subject: [PATCH 17/53] fix: don't overflow the stack on very long api library
 names

std::regex recurses once per character.
---
 src/generate.cpp | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/generate.cpp b/src/generate.cpp
index f9d3a53..62ba395 100644
--- a/src/generate.cpp
+++ b/src/generate.cpp
@@ -34,7 +34,6 @@
 #include <locale>
 #include <iomanip>
 #include <iostream>
-#include <regex>
 #include <sstream>
 #include <string>
 #include <vector>
@@ -175,14 +174,14 @@ std::string format_libname(const std::string &str, const std::string &pfx)
     case 'a':
         /* no quotes, API libname macro */
         if (utils::prefixed_and_longer_case(str, "api:")) {
-            const std::regex reg("(.*?):(.*)");
-            std::smatch m;
             auto sub = str.substr(4);
+            size_t pos;
 
-            if (std::regex_match(sub, m, reg) && m.size() == 3) {
+            if (utils::find(sub, ':', pos)) {
                 /* GDO_LIBNAMEA(xxx,0) */
-                lib_a = pfx + "_LIBNAMEA(" + m[2].str() + ',' + m[1].str() + ')';
-                lib_w = pfx + "_LIBNAMEW(" + m[2].str() + ',' + m[1].str() + ')';
+                auto args = sub.substr(pos + 1) + ',' + sub.substr(0, pos) + ')';
+                lib_a = pfx + "_LIBNAMEA(" + args;
+                lib_w = pfx + "_LIBNAMEW(" + args;
             }
         }
         break;
-- 
2.43.0


From b1c5f7e4540b66ffcb316938e323ae836e9b6d29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:13 +0000
Subject: [PATCH 18/53] fix: Clang AST: don't overflow the stack on very long
 lines

std::regex recurses once per character.
---
 src/clang_ast.cpp | 106 +++++++++++++++++++++++++++++-----------------
 1 file changed, 67 insertions(+), 39 deletions(-)

diff --git a/src/clang_ast.cpp b/src/clang_ast.cpp
index 376278a..73941c6 100644
--- a/src/clang_ast.cpp
+++ b/src/clang_ast.cpp
@@ -54,12 +54,13 @@ TranslationUnitDecl 0x5b4b21b885b8 <<invalid sloc>> <invalid sloc>
 ***/
 
 #include <stddef.h>
+#include <string.h>
 #include <algorithm>
-#include <regex>
 #include <string>
 #include <vector>
 #include "gendlopen.hpp"
 #include "lex.h"
+#include "parse.hpp"
 #include "types.hpp"
 #include "utils.hpp"
 
@@ -76,31 +77,72 @@ constexpr const char *err_no_symbols =
 /* strip ANSI colors and Windows line endings from line */
 std::string strip_line(const char *line)
 {
-    const std::regex reg(R"(\x1B\[[0-9;]*m)");
+    std::string s;
 
-    std::string s = line;
+    while (*line != 0) {
+        /* skip color: ESC [ 0-9; m */
+        if (line[0] == '\x1B' && line[1] == '[') {
+            const char *end = line + 2 + ::strspn(line + 2, "0123456789;");
+
+            if (*end == 'm') {
+                line = end + 1;
+                continue;
+            }
+        }
+
+        s += *line++;
+    }
 
     /* remains of Windows line endings */
     utils::delete_suffix(s, '\r');
 
-    return s.empty() ? "" : std::regex_replace(s, reg, "");
+    return s;
+}
+
+
+/* get the first quoted type: ..Decl 0x.. 'type'.. */
+bool get_type(const std::string &line, std::string &type, size_t pos=0)
+{
+    size_t end;
+
+    if ((pos = line.find(" '", pos)) == std::string::npos ||
+        (end = line.find('\'', pos + 2)) == std::string::npos)
+    {
+        return false;
+    }
+
+    type = line.substr(pos + 2, end - pos - 2);
+
+    return true;
+}
+
+
+/* get the first quoted type and the symbol in front of it: ..Decl 0x.. symbol 'type'.. */
+bool get_symbol_and_type(const std::string &line, std::string &symbol, std::string &type)
+{
+    size_t pos = 0, len;
+
+    while ((pos = line.find(" '", pos + 1)) != std::string::npos) {
+        for (len = 0; parse::is_ident(line[pos - len - 1]); len++)
+            ;
+
+        if (line[pos - len - 1] == ' ') {
+            symbol = line.substr(pos - len, len);
+            return get_type(line, type, pos);
+        }
+    }
+
+    return false;
 }
 
 
 /* get function parameter declaration */
 bool get_parameters(std::string &args, std::string &param_names, int &param_count)
 {
-    std::smatch m;
+    std::string type;
     size_t pos;
 
-    const std::regex reg(
-        "^[| ] [|`]-ParmVarDecl 0x.*?"
-        " '(.*?)'.*"  /* type */
-    );
-
-    const std::string line = strip_line(lex::text());
-
-    if (line.empty() || !std::regex_match(line, m, reg) || m.size() != 2) {
+    if (!get_type(strip_line(lex::text()), type)) {
         return false;
     }
 
@@ -109,14 +151,13 @@ bool get_parameters(std::string &args, std::string &param_names, int &param_coun
     param_names += name + ", ";
 
     /* search for function pointer */
-    if (utils::find(m.str(1), "(*)", pos)) {
+    if (utils::find(type, "(*)", pos)) {
         /* function pointer */
-        std::string str = m.str(1);
-        str.insert(pos + 2, name);
-        args += str + ", ";
+        type.insert(pos + 2, name);
+        args += type + ", ";
     } else {
         /* regular parameter */
-        args += m.str(1);
+        args += type;
 
         if (!args.ends_with('*')) {
             args += ' ';
@@ -185,20 +226,7 @@ bool split_function_type(const std::string &type, std::string &ret, std::string
 /* get function or variable declaration (initialization of prototype structs) */
 int gendlopen::get_declarations(filter::mode mode)
 {
-    std::smatch m;
-
-    const std::regex reg_func(
-        "^[|`]-FunctionDecl 0x.*?"
-        " ([a-zA-Z0-9_]*?) "  /* symbol */
-        "'(.*?)'.*"           /* type */
-    );
-
-    const std::regex reg_var(
-        "^[|`]-VarDecl 0x.*?"
-        " ([a-zA-Z0-9_]*?) "  /* symbol */
-        "'(.*?)'.*"           /* type */
-    );
-
+    std::string symbol, type;
     const std::string line = strip_line(lex::text());
 
     if (line.empty()) {
@@ -207,7 +235,7 @@ int gendlopen::get_declarations(filter::mode mode)
 
     const bool is_function = (utils::str_at(line, 2) == 'F');
 
-    if (!std::regex_match(line, m, is_function ? reg_func : reg_var) || m.size() != 3) {
+    if (!get_symbol_and_type(line, symbol, type)) {
         return 0;
     }
 
@@ -216,7 +244,7 @@ int gendlopen::get_declarations(filter::mode mode)
 
     proto.prototype = proto::function;
     proto.saved     = false;
-    proto.symbol    = m.str(1);
+    proto.symbol    = symbol;
 
     /* redeclaration of a symbol we already have */
     auto is_same = [&proto] (const proto_t &p) { return p.symbol == proto.symbol; };
@@ -262,8 +290,8 @@ int gendlopen::get_declarations(filter::mode mode)
         std::string params;
         int rv, param_count = 1;
 
-        if (!split_function_type(m.str(2), proto.type, params)) {
-            throw error("Clang AST: unsupported type of function `" + proto.symbol + "': " + m.str(2));
+        if (!split_function_type(type, proto.type, params)) {
+            throw error("Clang AST: unsupported type of function `" + proto.symbol + "': " + type);
         }
 
         proto.prototype = proto::function;
@@ -293,15 +321,15 @@ int gendlopen::get_declarations(filter::mode mode)
         return 1;
     } else {
         /* variable declaration */
-        if (utils::find(m.str(2), "(*)")) {
+        if (utils::find(type, "(*)")) {
             proto.prototype = proto::function_pointer;
-        } else if (utils::find(m.str(2), '[')) {
+        } else if (utils::find(type, '[')) {
             proto.prototype = proto::object_array;
         } else {
             proto.prototype = proto::object;
         }
 
-        proto.type = m.str(2);
+        proto.type = type;
         utils::strip_spaces(proto.type);
 
         m_objects.push_back(std::move(proto));
-- 
2.43.0


From eb7a2af7e643a12b24e86192cb7958b2b5fac158 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:33 +0000
Subject: [PATCH 19/53] fix: replace adjacent standalone prefixes

The character between two names was consumed by the first match.
---
 src/gendlopen.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gendlopen.cpp b/src/gendlopen.cpp
index cb8a80a..c1e097e 100644
--- a/src/gendlopen.cpp
+++ b/src/gendlopen.cpp
@@ -132,7 +132,7 @@ void gendlopen::prefix(const char *str)
     /* set regex format string (used in substitute.cpp) */
     m_fmt_upper = "$1" + m_pfx_upper + '_';
     m_fmt_lower = "$1" + m_pfx_lower + '_';
-    m_fmt_standalone = "$1" + m_pfx_lower + "$3";
+    m_fmt_standalone = "$1" + m_pfx_lower;
 }
 
 
@@ -152,7 +152,7 @@ std::string gendlopen::replace_prefixes(const std::string &input)
     );
 
     const std::regex reg_standalone(
-        "(" NOT_IDENT "|" LINE_BEGIN ")(gdo)(" NOT_IDENT "|" LINE_END ")"
+        "(" NOT_IDENT "|" LINE_BEGIN ")gdo(?=" NOT_IDENT "|" LINE_END ")"
     );
 
     std::string buf;
-- 
2.43.0


From 5a87e183fa6358b234a1b4153c8bf4e9470e6361 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:56 +0000
Subject: [PATCH 20/53] fix: use license.h and filename_macros.h from the
 templates path

The addresses of the built-in data were taken before the files were loaded,
and loading license.h again for the body file left a dangling pointer.
---
 src/data.cpp      | 4 +++-
 src/gendlopen.hpp | 2 +-
 src/generate.cpp  | 5 ++++-
 3 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/data.cpp b/src/data.cpp
index c3d0dd3..50d8ac5 100644
--- a/src/data.cpp
+++ b/src/data.cpp
@@ -201,7 +201,9 @@ void gendlopen::load_template(templates::name file)
     {
 #define TEMPLATE(FILE, VAR) \
     case templates::file_##VAR: \
-        load_from_file(templates::data_##VAR, m_templates_path, #FILE, m_line_directive); \
+        if (templates::data_##VAR.empty()) { \
+            load_from_file(templates::data_##VAR, m_templates_path, #FILE, m_line_directive); \
+        } \
         templates::ptr_##VAR = templates::data_##VAR.data(); \
         break;
 
diff --git a/src/gendlopen.hpp b/src/gendlopen.hpp
index e3052d2..843526c 100644
--- a/src/gendlopen.hpp
+++ b/src/gendlopen.hpp
@@ -106,7 +106,7 @@ private:
     void dump_templates(const char *dir);
 
     /* generate.cpp */
-    size_t save_data(templates::name file, const template_t *list);
+    size_t save_data(templates::name file, const template_t *&ptr);
 
     /* substitute.cpp */
     size_t replace_function_prototypes(const std::string &entry);
diff --git a/src/generate.cpp b/src/generate.cpp
index 62ba395..3c7adc0 100644
--- a/src/generate.cpp
+++ b/src/generate.cpp
@@ -386,12 +386,15 @@ size_t line_directive(const size_t lines, bool line_directive, const std::string
 
 
 /* save data, replace prefixes, return line count */
-size_t gendlopen::save_data(templates::name file, const template_t *list)
+size_t gendlopen::save_data(templates::name file, const template_t *&ptr)
 {
     size_t total_lines = 0;
 
+    /* this may set a new address */
     load_template(file);
 
+    const template_t *list = ptr;
+
     /* skip initial line directive */
     if (!m_line_directive && strncmp(list->data.c_str(), "#line", 5) == 0) {
         list++;
-- 
2.43.0


From 058874f5d0b884a187ae71ea35b763bd1d6880db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:20 +0000
Subject: [PATCH 21/53] fix: don't add an empty line at the end of template
 files

The output of dumped templates differed from the built-in ones.
---
 src/data.cpp      | 6 ++++++
 src/gendlopen.cpp | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/src/data.cpp b/src/data.cpp
index 50d8ac5..3e92d83 100644
--- a/src/data.cpp
+++ b/src/data.cpp
@@ -92,6 +92,12 @@ namespace /* anonymous */
         /* read lines */
         while (rv) {
             rv = utils::get_lines(fp, entry);
+
+            /* nothing behind the last linefeed */
+            if (!rv && entry.data.empty()) {
+                break;
+            }
+
             data.push_back(entry);
         }
 
diff --git a/src/gendlopen.cpp b/src/gendlopen.cpp
index c1e097e..74f6fdd 100644
--- a/src/gendlopen.cpp
+++ b/src/gendlopen.cpp
@@ -207,6 +207,12 @@ void gendlopen::process_custom_template()
     /* parse lines */
     while (rv) {
         rv = utils::get_lines(fp, entry);
+
+        /* nothing behind the last linefeed */
+        if (!rv && entry.data.empty()) {
+            break;
+        }
+
         substitute_line(entry, param_skip_code);
         m_substitute_lineno += entry.line_count;
     }
-- 
2.43.0


From 996b5177fbb2b7186f2b58b7dcef70e5475f94df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:26 +0000
Subject: [PATCH 22/53] fix: let #line directives match the lines of external
 template files

The internal #line directive was dumped into the template files and the one
added to loaded files was followed by an empty line.
---
 src/data.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/data.cpp b/src/data.cpp
index 3e92d83..7107627 100644
--- a/src/data.cpp
+++ b/src/data.cpp
@@ -83,7 +83,7 @@ namespace /* anonymous */
             if (fp == stdin) {
                 entry.data = "#line 1 \"<STDIN>\"";
             } else {
-                entry.data = "#line 1 \"" + std::string(file) + "\"\n";
+                entry.data = "#line 1 \"" + std::string(file) + '"';
             }
 
             data.push_back(entry);
@@ -119,6 +119,11 @@ namespace /* anonymous */
 
         std::cout << "saving " << path << std::endl;
 
+        /* skip initial line directive */
+        if (list->data.starts_with("#line")) {
+            list++;
+        }
+
         for ( ; list->line_count != 0; list++) {
             if (list->line_count == 1) {
                 ofs << list->data << '\n';
-- 
2.43.0


From 224edc50b7cd1b0701ed35811e93acc47b57e741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:43 +0000
Subject: [PATCH 23/53] fix: correct #line numbers behind entries which aren't
 used

Without functions (or without objects) the lines behind their placeholders
were off by one and the line count at the end of the header was wrong.
---
 src/substitute.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/substitute.cpp b/src/substitute.cpp
index 7fd47a3..eef481f 100644
--- a/src/substitute.cpp
+++ b/src/substitute.cpp
@@ -269,13 +269,14 @@ size_t gendlopen::substitute_line(const template_t &line, bool &param_skip_code)
     /* print #line directive to make sure the line count is on par */
     auto print_lineno = [&, this] () -> size_t
     {
-        const size_t entry_lines = utils::count_linefeed(buf);
-
-        if (m_line_directive) {
-            save::ofs << "#line " << (m_substitute_lineno + entry_lines) << '\n';
+        if (!m_line_directive) {
+            return 0; /* no line */
         }
 
-        return entry_lines;
+        /* number of the line behind this entry */
+        save::ofs << "#line " << (m_substitute_lineno + line.line_count) << '\n';
+
+        return 1; /* 1 line */
     };
 
     auto find_keyword = [&buf] (const list_t &list) -> char {
-- 
2.43.0


From b6673ae69f67375c8f5c241a94f40702b8e85f5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:49 +0000
Subject: [PATCH 24/53] fix: don't attribute created lines to filename_macros.h

Errors in user-defined macros, includes or types pointed to lines behind the
end of the template file.
---
 src/generate.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/generate.cpp b/src/generate.cpp
index 3c7adc0..6e9a92c 100644
--- a/src/generate.cpp
+++ b/src/generate.cpp
@@ -512,6 +512,8 @@ void gendlopen::generate()
     lines += save::header_guard_begin(header_name, m_pfx_upper, m_pragma_once, is_cxx);
 
     lines += save_data(templates::file_filename_macros, templates::ptr_filename_macros);
+
+    lines += save::line_directive(lines, m_line_directive, header_name);
     lines += save::extra_defines(m_defines);
     lines += save::includes(m_includes, is_cxx);
     lines += save::typedefs(m_typedefs);
-- 
2.43.0


From dc5fdb03320796ad760e71a5b6550b83686995ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:04 +0000
Subject: [PATCH 25/53] fix: don't abort on exceptions of the standard library

I.e. if the output path is too long or a non-empty directory.
---
 src/main.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/main.cpp b/src/main.cpp
index cc032bf..5cbe93b 100644
--- a/src/main.cpp
+++ b/src/main.cpp
@@ -22,6 +22,7 @@
  SOFTWARE.
 **/
 
+#include <exception>
 #include <iostream>
 #include <string>
 #ifdef _WIN32
@@ -62,7 +63,8 @@ int main(int argc, char **argv)
         std::cerr << "Try `" << argv[0] << " -help' for more information." << std::endl;
         return 1;
     }
-    catch (const gendlopen::error &e) {
+    catch (const std::exception &e) {
+        /* gendlopen::error, std::filesystem::filesystem_error, ... */
         std::cerr << utils::progname(argv[0]) << ": error: " << e.what() << std::endl;
         return 1;
     }
-- 
2.43.0


From 65f7016a9008fb63551d61710d0ef44daed43d64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:40 +0000
Subject: [PATCH 26/53] fix: don't exit successfully if the output could not be
 written

---
 src/cio_ofstream.cpp |  5 +++++
 src/cio_ofstream.hpp |  3 +++
 src/data.cpp         |  4 ++++
 src/gendlopen.cpp    |  6 ++++++
 src/gendlopen.hpp    |  3 +++
 src/generate.cpp     | 14 +++++++++++++-
 6 files changed, 34 insertions(+), 1 deletion(-)

diff --git a/src/cio_ofstream.cpp b/src/cio_ofstream.cpp
index a531de6..58c145d 100644
--- a/src/cio_ofstream.cpp
+++ b/src/cio_ofstream.cpp
@@ -61,4 +61,9 @@ void ofstream::close()
     m_optr = &std::cout;
 }
 
+bool ofstream::flush()
+{
+    return m_optr->flush().good();
+}
+
 } /* namespace cio */
diff --git a/src/cio_ofstream.hpp b/src/cio_ofstream.hpp
index 400aebe..4be63db 100644
--- a/src/cio_ofstream.hpp
+++ b/src/cio_ofstream.hpp
@@ -66,6 +66,9 @@ public:
 
     void close();
 
+    /* write buffered data, returns false if any data could not be written */
+    bool flush();
+
     /* overloading "<<" operator */
     template<class T>
     std::ostream& operator<<(const T &obj) {
diff --git a/src/data.cpp b/src/data.cpp
index 7107627..bd8ca2d 100644
--- a/src/data.cpp
+++ b/src/data.cpp
@@ -140,6 +140,10 @@ namespace /* anonymous */
                 ofs << '\n';
             }
         }
+
+        if (!ofs.flush()) {
+            throw gendlopen::error(std::string("failed to write file: ") + path);
+        }
     }
 }
 
diff --git a/src/gendlopen.cpp b/src/gendlopen.cpp
index 74f6fdd..126aa56 100644
--- a/src/gendlopen.cpp
+++ b/src/gendlopen.cpp
@@ -216,6 +216,8 @@ void gendlopen::process_custom_template()
         substitute_line(entry, param_skip_code);
         m_substitute_lineno += entry.line_count;
     }
+
+    save::close_ofstream();
 }
 
 
@@ -255,5 +257,9 @@ void gendlopen::print_symbols_to_stdout()
     }
 
     std::cout << "\n/***  " << (m_objects.size() + m_prototypes.size()) << " matches  ***/" << std::endl;
+
+    if (!std::cout) {
+        throw error("failed to write output");
+    }
 }
 
diff --git a/src/gendlopen.hpp b/src/gendlopen.hpp
index 843526c..4bb0bc5 100644
--- a/src/gendlopen.hpp
+++ b/src/gendlopen.hpp
@@ -40,6 +40,9 @@ namespace save
 
     /* open output file stream for writing */
     void open_ofstream(const std::filesystem::path &opath, bool force);
+
+    /* close output file stream and check if everything was written */
+    void close_ofstream();
 }
 
 
diff --git a/src/generate.cpp b/src/generate.cpp
index 6e9a92c..389a90b 100644
--- a/src/generate.cpp
+++ b/src/generate.cpp
@@ -369,6 +369,16 @@ void open_ofstream(const fs::path &opath, bool force)
     }
 }
 
+/* close output file stream and check if everything was written */
+void close_ofstream()
+{
+    if (!ofs.flush()) {
+        throw gendlopen::error("failed to write output");
+    }
+
+    ofs.close();
+}
+
 size_t line_directive(const size_t lines, bool line_directive, const std::string &header_name)
 {
     if (!line_directive) {
@@ -523,7 +533,7 @@ void gendlopen::generate()
     lines += save::line_directive(lines, m_line_directive, header_name);
     save::header_guard_end(header_name, m_pfx_upper, m_pragma_once, is_cxx);
 
-    save::ofs.close();
+    save::close_ofstream();
 
 
     /**************** body data ****************/
@@ -535,6 +545,8 @@ void gendlopen::generate()
         save::include_header(header_name, m_pfx_upper);
 
         substitute(body_data);
+
+        save::close_ofstream();
     }
 }
 
-- 
2.43.0


From 793426aa7938a7ddf1762d4a63bcf8fd9b3deac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:57 +0000
Subject: [PATCH 27/53] fix: refuse directories as input and template files

A directory was taken for an empty template.
---
 src/open_file.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/open_file.cpp b/src/open_file.cpp
index 7d914f9..c41cb9f 100644
--- a/src/open_file.cpp
+++ b/src/open_file.cpp
@@ -63,7 +63,10 @@ bool open_file::open(const std::string &path)
     if (path.empty() || path == "-") {
         m_fp = stdin;
     } else {
-        m_fp = ::fopen(path.c_str(), "rb");
+        std::error_code ec;
+
+        /* a directory can be opened but not read */
+        m_fp = std::filesystem::is_directory(path, ec) ? NULL : ::fopen(path.c_str(), "rb");
     }
 
     return is_open();
-- 
2.43.0


From e6fe08bae09ed392f9ca4bd12fad9f81bc3c683e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:49 +0000
Subject: [PATCH 28/53] fix: Clang AST: put the name into every kind of
 function pointer type

---
 src/clang_ast.cpp |  7 ++-----
 src/tokenize.cpp  |  9 +++------
 src/utils.cpp     | 28 ++++++++++++++++++++++++++++
 src/utils.hpp     |  5 +++++
 4 files changed, 38 insertions(+), 11 deletions(-)

diff --git a/src/clang_ast.cpp b/src/clang_ast.cpp
index 73941c6..ef4df56 100644
--- a/src/clang_ast.cpp
+++ b/src/clang_ast.cpp
@@ -140,7 +140,6 @@ bool get_symbol_and_type(const std::string &line, std::string &symbol, std::stri
 bool get_parameters(std::string &args, std::string &param_names, int &param_count)
 {
     std::string type;
-    size_t pos;
 
     if (!get_type(strip_line(lex::text()), type)) {
         return false;
@@ -151,9 +150,7 @@ bool get_parameters(std::string &args, std::string &param_names, int &param_coun
     param_names += name + ", ";
 
     /* search for function pointer */
-    if (utils::find(type, "(*)", pos)) {
-        /* function pointer */
-        type.insert(pos + 2, name);
+    if (utils::insert_pointer_name(type, name)) {
         args += type + ", ";
     } else {
         /* regular parameter */
@@ -321,7 +318,7 @@ int gendlopen::get_declarations(filter::mode mode)
         return 1;
     } else {
         /* variable declaration */
-        if (utils::find(type, "(*)")) {
+        if (utils::find(type, "(*")) {
             proto.prototype = proto::function_pointer;
         } else if (utils::find(type, '[')) {
             proto.prototype = proto::object_array;
diff --git a/src/tokenize.cpp b/src/tokenize.cpp
index 20d3ea3..6559e99 100644
--- a/src/tokenize.cpp
+++ b/src/tokenize.cpp
@@ -181,16 +181,13 @@ namespace /* anonymous */
     /* 'void (*)()'  ==>  'void (*name)()' */
     std::string fptr_typedef(const std::string &type, const std::string &name)
     {
-        size_t pos;
+        std::string s = type;
 
-        if (!utils::find(type, "(*)", pos) || type.find('(') != pos) {
+        if (!utils::insert_pointer_name(s, name)) {
             return {};
         }
 
-        std::string s = type;
-        pos += 2; /* insert after '*' */
-
-        return s.insert(pos, name);
+        return s;
     }
 
 
diff --git a/src/utils.cpp b/src/utils.cpp
index ac86140..65611c7 100644
--- a/src/utils.cpp
+++ b/src/utils.cpp
@@ -152,6 +152,34 @@ void utils::replace(const std::string &from, const std::string &to, std::string
     }
 }
 
+/* insert a name into the type of a (pointer to a) function pointer or a pointer to array:
+ * 'void (*)()'  ==>  'void (*name)()' */
+bool utils::insert_pointer_name(std::string &type, const std::string &name)
+{
+    size_t pos;
+
+    if (!utils::find(type, "(*", pos)) {
+        return false;
+    }
+
+    /* go to the innermost pointer and behind its qualifiers */
+    do {
+        for (pos += 2; pos < type.size(); pos++) {
+            if (type[pos] == ')' || type[pos] == '[' || type[pos] == '(') {
+                break;
+            }
+        }
+    } while (type.compare(pos, 2, "(*") == 0);
+
+    while (type[pos-1] == ' ') {
+        pos--;
+    }
+
+    type.insert(pos, (type[pos-1] == '*') ? name : ' ' + name);
+
+    return true;
+}
+
 /* count '\n' characters */
 size_t utils::count_linefeed(const std::string &str)
 {
diff --git a/src/utils.hpp b/src/utils.hpp
index 371d315..d491fc7 100644
--- a/src/utils.hpp
+++ b/src/utils.hpp
@@ -104,6 +104,11 @@ void strip_spaces(std::string &s);
 void replace(const std::string &from, const std::string &to, std::string &s);
 
 
+/* insert a name into the type of a (pointer to a) function pointer or a pointer to array:
+ * 'void (*)()'  ==>  'void (*name)()' */
+bool insert_pointer_name(std::string &type, const std::string &name);
+
+
 /* count '\n' characters */
 size_t count_linefeed(const std::string &str);
 
-- 
2.43.0


From ae32d33fa9120a1985c64efce0186ffa1549d0a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:37 +0000
Subject: [PATCH 29/53] fix: find %PARAM_SKIP_* lines with Windows line endings
 in template files

---
 src/substitute.cpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/substitute.cpp b/src/substitute.cpp
index eef481f..c7f600b 100644
--- a/src/substitute.cpp
+++ b/src/substitute.cpp
@@ -59,15 +59,21 @@ namespace /* anonymous */
 
         ptr += len;
 
-        if (strcmp(ptr, "REMOVE_BEGIN%") == 0) {
+        /* compare with keyword, ignore the remains of a Windows line ending */
+        auto equals = [&ptr] (const char *keyword) {
+            const size_t n = strlen(keyword);
+            return (strncmp(ptr, keyword, n) == 0 && (ptr[n] == 0 || strcmp(ptr + n, "\r") == 0));
+        };
+
+        if (equals("REMOVE_BEGIN%")) {
             /* PARAM_SKIP_REMOVE_BEGIN */
             param_skip_code = (parameter_names == param::skip);
             return true;
-        } else if (strcmp(ptr, "USE_BEGIN%") == 0) {
+        } else if (equals("USE_BEGIN%")) {
             /* PARAM_SKIP_USE_BEGIN */
             param_skip_code = (parameter_names != param::skip);
             return true;
-        } else if (strcmp(ptr, "END%") == 0) {
+        } else if (equals("END%")) {
             /* PARAM_SKIP_END */
             param_skip_code = false;
             return true;
-- 
2.43.0


From d4a1adaf8e6198c1cc1cd758312b8cb04cd46113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:00 +0000
Subject: [PATCH 30/53] fix: -prefix beginning with a digit garbled the output

The digit became part of the regex group number ( + 7z -> group 17).
---
 src/gendlopen.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/gendlopen.cpp b/src/gendlopen.cpp
index 126aa56..9f0f458 100644
--- a/src/gendlopen.cpp
+++ b/src/gendlopen.cpp
@@ -129,10 +129,11 @@ void gendlopen::prefix(const char *str)
     m_pfx_upper = utils::to_upper(m_pfx);
     m_pfx_lower = utils::to_lower(m_pfx);
 
-    /* set regex format string (used in substitute.cpp) */
-    m_fmt_upper = "$1" + m_pfx_upper + '_';
-    m_fmt_lower = "$1" + m_pfx_lower + '_';
-    m_fmt_standalone = "$1" + m_pfx_lower;
+    /* set regex format string (used in substitute.cpp);
+     * two digits because the prefix could begin with one */
+    m_fmt_upper = "$01" + m_pfx_upper + '_';
+    m_fmt_lower = "$01" + m_pfx_lower + '_';
+    m_fmt_standalone = "$01" + m_pfx_lower;
 }
 
 
-- 
2.43.0


From a7d827ef9ae9b437159fbef77a7bf342391fa236 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:50 +0000
Subject: [PATCH 31/53] fix: C++ output did not compile for pointers to const
 or volatile objects

---
 src/templates/cxx.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/templates/cxx.cpp b/src/templates/cxx.cpp
index 73b87e2..5fe8396 100644
--- a/src/templates/cxx.cpp
+++ b/src/templates/cxx.cpp
@@ -428,7 +428,7 @@ bool gdo::dl::get_library_path(void)
         auto info = reinterpret_cast<struct ld_info *>(buf);
 
         if (false
-            || aix_libpath(info, reinterpret_cast<uint8_t *>(GDO_RAWPTR_%%symbol%%))
+            || aix_libpath(info, const_cast<uint8_t *>(reinterpret_cast<const volatile uint8_t *>(GDO_RAWPTR_%%symbol%%)))
         ) {
             return true;
         }
@@ -484,7 +484,7 @@ bool gdo::dl::get_library_path_dladdr(void)
     }
 
     if (false
-        || _gdo_call_dladdr(reinterpret_cast<void *>(GDO_RAWPTR_%%symbol%%), &info)
+        || _gdo_call_dladdr(const_cast<void *>(reinterpret_cast<const volatile void *>(GDO_RAWPTR_%%symbol%%)), &info)
     ) {
         m_libpath = info.dli_fname;
         return true;
-- 
2.43.0


From 90ae53dc1d195be78c8878df6f7b3e7d3fb0c2a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:17 +0000
Subject: [PATCH 32/53] fix: minimal C header with GDO_STATIC declared its
 handle 'static inline'

---
 src/templates/minimal.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/templates/minimal.h b/src/templates/minimal.h
index ab29a3d..b7d43b1 100644
--- a/src/templates/minimal.h
+++ b/src/templates/minimal.h
@@ -6,9 +6,11 @@
 #endif
 
 #ifdef GDO_STATIC
-# define GDO_LINKAGE  static inline
+# define GDO_LINKAGE      static inline
+# define GDO_OBJ_LINKAGE  static
 #else
-# define GDO_LINKAGE  /**/
+# define GDO_LINKAGE      /**/
+# define GDO_OBJ_LINKAGE  /**/
 #endif
 
 
@@ -29,7 +31,7 @@ typedef struct gdo_handle
 
 } gdo_handle_t;
 
-GDO_LINKAGE gdo_handle_t gdo_hndl;
+GDO_OBJ_LINKAGE gdo_handle_t gdo_hndl;
 
 
 /**
-- 
2.43.0


From f0d30e710fc1c9a51d8562d2316bd167ba2907c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:52 +0000
Subject: [PATCH 33/53] fix: library path of relative names was not found in
 /proc/self/maps

Offset and device numbers are hexadecimal there, and `%*u' stopped at the
first letter.
---
 src/templates/common.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/templates/common.c b/src/templates/common.c
index 90fa721..183b56d 100644
--- a/src/templates/common.c
+++ b/src/templates/common.c
@@ -157,7 +157,7 @@ GDO_INLINE bool _gdo_fullpath_procmap(struct link_map *lm, char *buf, size_t buf
     while (getline(&line, &n, fp) != -1) {
         /* address start-end         mode offset   device inode      pathname */
         /* 7de29d200000-7de29d228000 r--p 00000000 103:01 2758110    /usr/lib/x86_64-linux-gnu/libc.so.6\n */
-        int rv = sscanf(line, "%jx-%jx %4[rwxsp-] %*u %*u:%*u %*u %m[^\n]",
+        int rv = sscanf(line, "%jx-%jx %4[rwxsp-] %*x %*x:%*x %*u %m[^\n]",
                         &start, &end, mode, &path);
 
         if (rv == 4 && lm->l_addr >= start && lm->l_addr < end) {
-- 
2.43.0


From 6d1a5a31e129f666aa36b9b69129b5aeb3d5cf96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:35 +0000
Subject: [PATCH 34/53] fix: failure without a message from dlerror() was
 reported as "no error"

dlsym() returns NULL without setting an error if the address of the symbol
is NULL.
---
 src/templates/c.c     | 16 +++++++++++-----
 src/templates/cxx.cpp | 15 ++++++++++-----
 src/templates/cxx.hpp |  2 +-
 3 files changed, 22 insertions(+), 11 deletions(-)

diff --git a/src/templates/c.c b/src/templates/c.c
index 99293f9..8b6b106 100644
--- a/src/templates/c.c
+++ b/src/templates/c.c
@@ -138,11 +138,17 @@ GDO_INLINE void _gdo_clear_error(void)
     gdo_hndl.errbuf[0] = 0;
 }
 
-/* save the last message provided by dlerror() */
+/* save the last message provided by dlerror(); `msg' is only used if there
+ * is none, i.e. if the address of a symbol is NULL */
 GDO_INLINE void _gdo_save_error(const gdo_char_t *msg)
 {
-    GDO_UNUSED_REF(msg);
-    _gdo_save_to_errbuf(dlerror());
+    const char *err = dlerror();
+
+    if (err) {
+        _gdo_save_to_errbuf(err);
+    } else {
+        GDO_SNPRINTF(gdo_hndl.errbuf, "%s: unknown error", msg);
+    }
 }
 
 /* sets the "no library was loaded" error message */
@@ -341,7 +347,7 @@ GDO_LINKAGE bool gdo_free_lib(void)
 #ifdef GDO_WINAPI
             _gdo_save_error(_T("FreeLibrary()"));
 #else
-            _gdo_save_error(NULL);
+            _gdo_save_error("dlclose()");
 #endif
             return false;
         }
@@ -800,7 +806,7 @@ GDO_INLINE bool _gdo_libpath_dlinfo(void)
     _gdo_clear_error();
 
     if (dlinfo(gdo_hndl.handle, RTLD_DI_LINKMAP, &lm) == -1) {
-        _gdo_save_error(NULL);
+        _gdo_save_error("dlinfo()");
         return false;
     }
 
diff --git a/src/templates/cxx.cpp b/src/templates/cxx.cpp
index 5fe8396..0b0c877 100644
--- a/src/templates/cxx.cpp
+++ b/src/templates/cxx.cpp
@@ -335,11 +335,12 @@ void gdo::dl::clear_error()
 }
 
 
-/* save last error */
-void gdo::dl::save_error(const std::string&)
+/* save last error; `msg' is only used if dlerror() doesn't provide a message,
+ * i.e. if the address of a symbol is NULL */
+void gdo::dl::save_error(const std::string &msg)
 {
     const char *ptr = ::dlerror();
-    m_errmsg = ptr ? ptr : "";
+    m_errmsg = ptr ? ptr : msg + ": unknown error";
 }
 
 
@@ -447,7 +448,7 @@ bool gdo::dl::get_library_path_dlinfo(void)
     struct link_map *lm = nullptr;
 
     if (::dlinfo(m_handle, RTLD_DI_LINKMAP, &lm) == -1) {
-        save_error();
+        save_error("dlinfo()");
         return false;
     }
 
@@ -506,7 +507,11 @@ T gdo::dl::sym_load(const char *symbol)
     T ptr = reinterpret_cast<T>(_gdo_call_dlsym(m_handle, symbol));
 
     if (!ptr) {
+#ifdef GDO_WINAPI
         save_error();
+#else
+        save_error(symbol);
+#endif
     }
 
     return ptr;
@@ -823,7 +828,7 @@ bool gdo::dl::free(bool force)
 #ifdef GDO_WINAPI
         save_error("FreeLibrary()");
 #else
-        save_error();
+        save_error("dlclose()");
 #endif
         return false;
     }
diff --git a/src/templates/cxx.hpp b/src/templates/cxx.hpp
index 5808444..6958e2c 100644
--- a/src/templates/cxx.hpp
+++ b/src/templates/cxx.hpp
@@ -181,7 +181,7 @@ private:
     std::string m_errmsg;
 
     void clear_error();
-    void save_error(const std::string &msg = {}); /* `msg' is always ignored */
+    void save_error(const std::string &msg);
     void set_error_invalid_handle();
 
     void load_lib(const std::string &filename);
-- 
2.43.0


From b980e1da7aec3d4d501c668dbc409147c5a55775 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:35 +0000
Subject: [PATCH 35/53] fix: no error message was set if the library path was
 too long (C API)

---
 src/templates/c.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/templates/c.c b/src/templates/c.c
index 8b6b106..20bca51 100644
--- a/src/templates/c.c
+++ b/src/templates/c.c
@@ -825,6 +825,7 @@ GDO_INLINE bool _gdo_libpath_dlinfo(void)
     size_t len = strlen(lm->l_name) + 1;
 
     if (len > GDO_BUFLEN) {
+        _gdo_save_to_errbuf("buffer is too small to hold the library path");
         return false;
     }
 
@@ -864,6 +865,7 @@ GDO_INLINE bool _gdo_libpath_dladdr(void)
     size_t len = strlen(path) + 1;
 
     if (len > GDO_BUFLEN) {
+        _gdo_save_to_errbuf("buffer is too small to hold the library path");
         return false;
     }
 
-- 
2.43.0


From 781da5bbf1e6ad24da9f41873f753932f7fe30e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:23 +0000
Subject: [PATCH 36/53] fix: library_path() of a C++ object returned the path
 of a library freed by another one

---
 src/templates/cxx.cpp | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/templates/cxx.cpp b/src/templates/cxx.cpp
index 0b0c877..bc06390 100644
--- a/src/templates/cxx.cpp
+++ b/src/templates/cxx.cpp
@@ -256,10 +256,9 @@ void gdo::dl::get_library_path(std::basic_string<T> &path)
 {
     clear_error();
 
-    /* was the library path already saved? */
-    if (!path.empty()) {
-        return;
-    }
+    /* don't reuse a saved path, the library may have been freed through
+     * another object in the meantime */
+    path.clear();
 
     if (!lib_loaded()) {
         set_error_invalid_handle();
@@ -958,10 +957,9 @@ std::string gdo::dl::library_path()
         return {};
     }
 
-    /* was the library path already saved? */
-    if (!m_libpath.empty()) {
-        return m_libpath;
-    }
+    /* don't reuse a saved path, the library may have been freed through
+     * another object in the meantime */
+    m_libpath.clear();
 
 #if defined(GDO_DLFCN_WIN32) || defined(_AIX)
     if (get_library_path()) {
-- 
2.43.0


From 267986ea2006afd8afad95b5ea50963a48b4df00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:23 +0000
Subject: [PATCH 37/53] fix: error() was set although library_path() had
 succeeded

---
 src/templates/cxx.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/templates/cxx.cpp b/src/templates/cxx.cpp
index bc06390..fd8ef8c 100644
--- a/src/templates/cxx.cpp
+++ b/src/templates/cxx.cpp
@@ -487,6 +487,7 @@ bool gdo::dl::get_library_path_dladdr(void)
         || _gdo_call_dladdr(const_cast<void *>(reinterpret_cast<const volatile void *>(GDO_RAWPTR_%%symbol%%)), &info)
     ) {
         m_libpath = info.dli_fname;
+        m_errmsg.clear(); /* dlinfo() may have failed before */
         return true;
     }
 
-- 
2.43.0


From 4988a466b93200271f9d5c46fee7b6718d2ab69e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:51 +0000
Subject: [PATCH 38/53] fix: minimal loaders leaked the library if another one
 was loaded

---
 src/templates/minimal.h         | 4 ++++
 src/templates/minimal_cxxeh.hpp | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/src/templates/minimal.h b/src/templates/minimal.h
index b7d43b1..7da79bf 100644
--- a/src/templates/minimal.h
+++ b/src/templates/minimal.h
@@ -55,6 +55,7 @@ GDO_LINKAGE void gdo_free_library(void)
 
 /**
  * Load library and all symbols.
+ * A library that was loaded before is freed first.
  *
  * filename:
  *   Library filename or path to load. Must not be empty or NULL.
@@ -64,6 +65,9 @@ GDO_LINKAGE void gdo_free_library(void)
  */
 GDO_LINKAGE const char *gdo_load_library_and_symbols(const char *filename)
 {
+    /* free a library that was loaded before */
+    gdo_free_library();
+
     if (!filename) {
         return "filename is <NULL>";
     } else if (!*filename) {
diff --git a/src/templates/minimal_cxxeh.hpp b/src/templates/minimal_cxxeh.hpp
index de7df4d..64d3991 100644
--- a/src/templates/minimal_cxxeh.hpp
+++ b/src/templates/minimal_cxxeh.hpp
@@ -93,6 +93,7 @@ namespace gdo
 
     /**
      * Load library and all symbols.
+     * A library that was loaded before is freed first.
      *
      * filename:
      *   Library filename or path to load. Must not be empty or NULL.
@@ -101,6 +102,9 @@ namespace gdo
      */
     void load_library_and_symbols(const char *filename) noexcept(false)
     {
+        /* free a library that was loaded before */
+        free_library();
+
         if (filename == NULL) {
             throw LibraryError("<NULL>");
         } else if (*filename == 0) {
-- 
2.43.0


From d3d0193909a4857e181aab3690dad53f918ec121 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:27 +0000
Subject: [PATCH 39/53] fix: autoload used the library name as printf format (C
 API)

---
 src/templates/c.c | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/src/templates/c.c b/src/templates/c.c
index 20bca51..5ccd297 100644
--- a/src/templates/c.c
+++ b/src/templates/c.c
@@ -889,24 +889,29 @@ GDO_INLINE bool _gdo_libpath_dladdr(void)
 void _gdo_noop(void) {}
 #endif
 
-GDO_INLINE void _gdo_print_error(const gdo_char_t *fmt, const gdo_char_t *sym, const gdo_char_t *msg)
+GDO_INLINE void _gdo_print_error(const gdo_char_t *type, const gdo_char_t *lib, const gdo_char_t *sym, const gdo_char_t *msg)
 {
+    const gdo_char_t *sep = lib ? _T(": ") : _T("");
+
+    if (!lib) {
+        lib = _T("");
+    }
+
 #ifdef _WIN32
 
 # ifdef GDO_USE_MESSAGE_BOX
     /* we can safely use gdo_hndl.errbuf, the last error message
      * was saved in gdo_hndl.formatted */
-    _sntprintf_s(gdo_hndl.errbuf, GDO_BUFLEN, _TRUNCATE, fmt, sym, msg);
+    _sntprintf_s(gdo_hndl.errbuf, GDO_BUFLEN, _TRUNCATE, _T("%s: %s%s%s: %s"), type, lib, sep, sym, msg);
     MessageBox(NULL, gdo_hndl.errbuf, _T("Error"), MB_OK | MB_ICONERROR);
 # else
-    _ftprintf_s(stderr, fmt, sym, msg);
+    _ftprintf_s(stderr, _T("%s: %s%s%s: %s"), type, lib, sep, sym, msg);
     _fputtc(_T('\n'), stderr);
 # endif //GDO_USE_MESSAGE_BOX
 
 #else //!_WIN32
 
-    fprintf(stderr, fmt, sym, msg);
-    fputc('\n', stderr);
+    fprintf(stderr, "%s: %s%s%s: %s\n", type, lib, sep, sym, msg);
 
 #endif //!_WIN32
 }
@@ -948,9 +953,9 @@ GDO_LINKAGE void _gdo_wrap_check_loaded(void *symptr, int load, const gdo_char_t
 
     if (_gdo_tcsstr(msg, GDO_DEFAULT_LIB)) {
         /* library name is already part of error message */
-        _gdo_print_error(_T("error: %s: %s"), sym, msg);
+        _gdo_print_error(_T("error"), NULL, sym, msg);
     } else {
-        _gdo_print_error(_T("error: ") GDO_DEFAULT_LIB _T(": %s: %s"), sym, msg);
+        _gdo_print_error(_T("error"), GDO_DEFAULT_LIB, sym, msg);
     }
 
     gdo_force_free_lib();
@@ -967,7 +972,7 @@ GDO_LINKAGE void _gdo_wrap_check_loaded(void *symptr, int load, const gdo_char_t
     }
 
     GDO_UNUSED_REF(load);
-    _gdo_print_error(_T("fatal error: %s: %s"), sym, msg);
+    _gdo_print_error(_T("fatal error"), NULL, sym, msg);
 
     abort();
 
-- 
2.43.0


From de51bb51e59782caab280077828fa04f2753c4f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:34 +0000
Subject: [PATCH 40/53] fix: converted strings had a null terminator at their
 end (C++, win32)

---
 src/templates/cxx.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/templates/cxx.cpp b/src/templates/cxx.cpp
index fd8ef8c..4d0c6df 100644
--- a/src/templates/cxx.cpp
+++ b/src/templates/cxx.cpp
@@ -129,6 +129,8 @@ bool gdo::dl::convert_string(const std::basic_string<T_in> &str_in, std::basic_s
 
         /* convert string */
         if (mbs_wcs_conv(&n, buf, len, str_in.c_str()) && n == len) {
+            /* remove the null terminator */
+            str_out.resize(len - 1);
             return true;
         }
     }
-- 
2.43.0


From 5ec28fc0ee97de2b9a1c3b1b406906cd107f9051 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:34 +0000
Subject: [PATCH 41/53] fix: error of a failed filename conversion was
 overwritten (win32)

---
 src/templates/c.c     | 5 ++++-
 src/templates/cxx.cpp | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/templates/c.c b/src/templates/c.c
index 5ccd297..161c200 100644
--- a/src/templates/c.c
+++ b/src/templates/c.c
@@ -234,7 +234,10 @@ GDO_LINKAGE bool gdo_load_lib_args(const gdo_char_t *filename, int flags, bool n
     _gdo_load_library(filename, flags, new_namespace);
 
     if (!gdo_lib_is_loaded()) {
-        _gdo_save_error(filename);
+        /* an error is already set if the filename couldn't be converted */
+        if (gdo_hndl.errbuf[0] == 0) {
+            _gdo_save_error(filename);
+        }
         return false;
     }
 
diff --git a/src/templates/cxx.cpp b/src/templates/cxx.cpp
index 4d0c6df..0b6f277 100644
--- a/src/templates/cxx.cpp
+++ b/src/templates/cxx.cpp
@@ -541,7 +541,10 @@ bool gdo::dl::load_filename(const T &filename)
     load_lib(filename);
 
     if (!lib_loaded()) {
-        save_error(filename);
+        /* an error is already set if the filename couldn't be converted */
+        if (m_errmsg.empty()) {
+            save_error(filename);
+        }
         return false;
     }
 
-- 
2.43.0


From 86571cdb6b52b82fc1222dfd171eda9e95e431c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:42 +0000
Subject: [PATCH 42/53] fix: autoload error message printed a wide string as
 pointer (C++, win32)

---
 src/templates/cxx.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/templates/cxx.cpp b/src/templates/cxx.cpp
index 0b6f277..15407e8 100644
--- a/src/templates/cxx.cpp
+++ b/src/templates/cxx.cpp
@@ -1047,11 +1047,13 @@ namespace gdo
 
             std::string msg = _loader.error();
 
-            if (msg.find(GDO_DEFAULT_LIBA) != std::string::npos) {
+            const std::string lib = _loader.filename();
+
+            if (msg.find(lib) != std::string::npos) {
                 /* library name is already part of error message */
                 sstr << "error: " << sym << ": " << msg;
             } else {
-                sstr << "error: " GDO_DEFAULT_LIB ": " << sym << ": " << msg;
+                sstr << "error: " << lib << ": " << sym << ": " << msg;
             }
 
             msg_callback(sstr.str().c_str());
-- 
2.43.0


From 28f98e48686b5e3fd7e1f63dd61f484e931c29cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:59 +0000
Subject: [PATCH 43/53] fix: escape filenames in #line directives

---
 src/gendlopen.cpp |  2 +-
 src/generate.cpp  |  2 +-
 src/utils.cpp     | 16 ++++++++++++++++
 src/utils.hpp     |  4 ++++
 4 files changed, 22 insertions(+), 2 deletions(-)

diff --git a/src/gendlopen.cpp b/src/gendlopen.cpp
index 9f0f458..63d8be6 100644
--- a/src/gendlopen.cpp
+++ b/src/gendlopen.cpp
@@ -198,7 +198,7 @@ void gendlopen::process_custom_template()
         if (fp == stdin) {
             save::ofs << "#line 1 \"<STDIN>\"\n";
         } else {
-            save::ofs << "#line 1 \"" << m_custom_template << "\"\n";
+            save::ofs << "#line 1 \"" << utils::escape_filename(m_custom_template) << "\"\n";
         }
 
         /* count the "#line" directive */
diff --git a/src/generate.cpp b/src/generate.cpp
index 389a90b..ea31ac3 100644
--- a/src/generate.cpp
+++ b/src/generate.cpp
@@ -387,7 +387,7 @@ size_t line_directive(const size_t lines, bool line_directive, const std::string
 
     /* +1 to count the "#line" directive itself and
      * +1 to print the number of the next line */
-    save::ofs << "#line " << (lines + 2) << " \"" << header_name << "\"\n";
+    save::ofs << "#line " << (lines + 2) << " \"" << utils::escape_filename(header_name) << "\"\n";
 
     return 1;
 }
diff --git a/src/utils.cpp b/src/utils.cpp
index 65611c7..fb07efb 100644
--- a/src/utils.cpp
+++ b/src/utils.cpp
@@ -194,6 +194,22 @@ size_t utils::count_linefeed(const std::string &str)
     return n;
 }
 
+
+/* escape a filename for the use in a #line directive */
+std::string utils::escape_filename(const std::string &str)
+{
+    std::string out;
+
+    for (const char &c : str) {
+        if (c == '\\' || c == '"') {
+            out += '\\';
+        }
+        out += c;
+    }
+
+    return out;
+}
+
 /* read input lines */
 bool utils::get_lines(FILE *fp, template_t &entry)
 {
diff --git a/src/utils.hpp b/src/utils.hpp
index d491fc7..a836294 100644
--- a/src/utils.hpp
+++ b/src/utils.hpp
@@ -113,6 +113,10 @@ bool insert_pointer_name(std::string &type, const std::string &name);
 size_t count_linefeed(const std::string &str);
 
 
+/* escape a filename for the use in a #line directive */
+std::string escape_filename(const std::string &str);
+
+
 /* read input lines */
 bool get_lines(FILE *fp, template_t &entry);
 
-- 
2.43.0


From e258e04cb17dcb91cf1be7721870e4210c00a7a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:59 +0000
Subject: [PATCH 44/53] fix: keep a #line directive in the first line of a
 template file

---
 src/generate.cpp   | 4 ++--
 src/substitute.cpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/generate.cpp b/src/generate.cpp
index ea31ac3..d39c4a6 100644
--- a/src/generate.cpp
+++ b/src/generate.cpp
@@ -405,8 +405,8 @@ size_t gendlopen::save_data(templates::name file, const template_t *&ptr)
 
     const template_t *list = ptr;
 
-    /* skip initial line directive */
-    if (!m_line_directive && strncmp(list->data.c_str(), "#line", 5) == 0) {
+    /* skip initial line directive of built-in templates */
+    if (!m_line_directive && m_templates_path.empty() && strncmp(list->data.c_str(), "#line", 5) == 0) {
         list++;
     }
 
diff --git a/src/substitute.cpp b/src/substitute.cpp
index c7f600b..5700d06 100644
--- a/src/substitute.cpp
+++ b/src/substitute.cpp
@@ -388,8 +388,8 @@ size_t gendlopen::substitute(const vtemplate_t &vec)
         /* init input template line count */
         m_substitute_lineno = 0;
 
-        /* skip initial line directive */
-        if (!m_line_directive && strncmp(list->data.c_str(), "#line", 5) == 0) {
+        /* skip initial line directive of built-in templates */
+        if (!m_line_directive && m_templates_path.empty() && strncmp(list->data.c_str(), "#line", 5) == 0) {
             list++;
         }
 
-- 
2.43.0


From bc63093d6758227b63071f6c3aa8f16c765bf011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:32 +0000
Subject: [PATCH 45/53] fix: don't skip lines of the following template files

---
 src/substitute.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/substitute.cpp b/src/substitute.cpp
index 5700d06..e2d4b2b 100644
--- a/src/substitute.cpp
+++ b/src/substitute.cpp
@@ -374,7 +374,6 @@ size_t gendlopen::substitute_line(const template_t &line, bool &param_skip_code)
 size_t gendlopen::substitute(const vtemplate_t &vec)
 {
     size_t lines_written = 0;
-    bool param_skip_code = false;
 
     if (vec.empty()) {
         return 0;
@@ -388,6 +387,10 @@ size_t gendlopen::substitute(const vtemplate_t &vec)
         /* init input template line count */
         m_substitute_lineno = 0;
 
+        /* an open %PARAM_SKIP_*_BEGIN% ends with its template, or else
+         * the initial #line directive of the next one would be skipped */
+        bool param_skip_code = false;
+
         /* skip initial line directive of built-in templates */
         if (!m_line_directive && m_templates_path.empty() && strncmp(list->data.c_str(), "#line", 5) == 0) {
             list++;
-- 
2.43.0


From 34ce7b4298b450c78777aa5ecc0bd1286e727776 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:13 +0000
Subject: [PATCH 46/53] fix: escape sequences of special characters in built-in
 templates swallowed hexadecimal digits

---
 src/gen_templates_data.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/gen_templates_data.c b/src/gen_templates_data.c
index e55adcd..9db86b2 100644
--- a/src/gen_templates_data.c
+++ b/src/gen_templates_data.c
@@ -141,7 +141,8 @@ static void dump(FILE *fpOut, const char *in_dir, const char *in_file, const cha
 
         default:
             if (c < ' ' || c > '~') {
-                fprintf(fpOut, "\\x%02X", (unsigned char)c);
+                /* octal, as a hexadecimal escape sequence could take in the following characters */
+                fprintf(fpOut, "\\%03o", (unsigned char)c);
             } else {
                 fprintf(fpOut, "%c", (char)c);
             }
-- 
2.43.0


From 4b24da517f67cbfe9c9d95f14036932a90162aee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:42 +0000
Subject: [PATCH 47/53] fix: don't write carriage returns into the string
 literals of built-in templates

---
 src/gen_templates_data.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gen_templates_data.c b/src/gen_templates_data.c
index 9db86b2..40647c7 100644
--- a/src/gen_templates_data.c
+++ b/src/gen_templates_data.c
@@ -119,7 +119,7 @@ static void dump(FILE *fpOut, const char *in_dir, const char *in_file, const cha
             /* concatenate lines ending on »@\n« */
             if (READ_NEXT() == '\r' && READ_NEXT() != '\n') {
                 /* not a »\r\n« line ending */
-                fprintf(fpOut, "%s", "@\r");
+                fprintf(fpOut, "%s", "@\\r");
                 ungetc(c, fp);
                 break;
             }
-- 
2.43.0


From 79bd3e14ea716631edd8e21860921a745bd55617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:27 +0000
Subject: [PATCH 48/53] fix: keep library names which are macros out of
 GDO_LIBNAMEW

---
 src/templates/filename_macros.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/templates/filename_macros.h b/src/templates/filename_macros.h
index 0b9b436..a02951f 100644
--- a/src/templates/filename_macros.h
+++ b/src/templates/filename_macros.h
@@ -75,8 +75,9 @@ GDO_LIBEXTW
 /* wide character macros */
 #undef GDO_LIBEXTW
 #undef GDO_LIBNAMEW
-#define GDO_LIBEXTW              L"" GDO_LIBEXTA
-#define GDO_LIBNAMEW(NAME, API)  L"" GDO_LIBNAMEA(NAME,API)
+/* GDO_LIBNAMEW takes no parameters, to keep NAME from being replaced if it's a macro too */
+#define GDO_LIBEXTW   L"" GDO_LIBEXTA
+#define GDO_LIBNAMEW  L"" GDO_LIBNAMEA
 
 /* wide/narrow character default macros */
 #undef GDO_LIBEXT
-- 
2.43.0


From 1e5193283e9f4eb7581a7c434ddd1d49d403b76a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:31 +0000
Subject: [PATCH 49/53] fix: _gdo_noop() was defined in every unit with
 -std=gnu89

---
 src/templates/c.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/templates/c.h b/src/templates/c.h
index 2b2626f..62caf0a 100644
--- a/src/templates/c.h
+++ b/src/templates/c.h
@@ -189,7 +189,7 @@ GDO_DECL const gdo_char_t *gdo_library_path(void);
 
 /* we need an actual function for the VA_ARGS macro */
 #ifdef __GNUC__
-inline __attribute__ ((always_inline)) void _gdo_noop(void) {}
+extern inline __attribute__ ((__gnu_inline__, __always_inline__)) void _gdo_noop(void) {}
 #elif defined(_MSC_VER)
 __forceinline void _gdo_noop(void) {}
 #else
-- 
2.43.0


From 615b3392c48fcef929702bddae091e4dbd221972 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:31 +0000
Subject: [PATCH 50/53] fix: visible wrapper functions were defined in every
 unit that includes a separate header

---
 src/templates/c.h      | 3 +++
 src/templates/common.h | 8 ++++++++
 src/templates/cxx.hpp  | 3 +++
 3 files changed, 14 insertions(+)

diff --git a/src/templates/c.h b/src/templates/c.h
index 62caf0a..12a40b7 100644
--- a/src/templates/c.h
+++ b/src/templates/c.h
@@ -259,6 +259,9 @@ GDO_DECL void _gdo_wrap_check_loaded(void *symptr, int load, const gdo_char_t *s
      (GDO_HOOK_%%func_symbol%%( __VA_ARGS__ )),\@
       GDO_RAWPTR_%%func_symbol%%( __VA_ARGS__ ))@
 # endif@
+#elif defined(GDO_WRAP_DECL_ONLY)@
+    GDO_WRAP_DECL /* defined in the body file */@
+    %%type%% GDO_WRAP(%%func_symbol%%) (%%args%%);@
 #else //!GDO_HAS_VA_ARGS_%%func_symbol%%@
     GDO_WRAP_DECL /* wrapper function */@
     %%type%% GDO_WRAP(%%func_symbol%%) (%%args%%) {@
diff --git a/src/templates/common.h b/src/templates/common.h
index 1c892c7..7fee520 100644
--- a/src/templates/common.h
+++ b/src/templates/common.h
@@ -235,6 +235,14 @@ extern void *dlmopen(Lmid_t lmid, const char *path, int flags);
 # define GDO_WRAP(x)    GDO_WRAP_##x
 #endif
 
+/* visible functions must be defined only once: if we saved into separate
+ * files, they are only declared outside of the body file */
+#if  defined(GDO_WRAP_VISIBILITY) && \
+     defined(GDO_SEPARATE) && \
+    !defined(GDO_INCLUDED_IN_BODY)
+# define GDO_WRAP_DECL_ONLY
+#endif
+
 
 /* diagnostic #pragma warnings */
 #ifdef __GNUC__
diff --git a/src/templates/cxx.hpp b/src/templates/cxx.hpp
index 6958e2c..66e3727 100644
--- a/src/templates/cxx.hpp
+++ b/src/templates/cxx.hpp
@@ -467,6 +467,9 @@ namespace gdo {
         GDO_HOOK_%%func_symbol%%(args...);@
         %%return%% GDO_RAWPTR_%%func_symbol%%(args...);@
     }@
+#elif defined(GDO_WRAP_DECL_ONLY)@
+    GDO_WRAP_DECL /* defined in the body file */@
+    %%type%% GDO_WRAP(%%func_symbol%%) (%%args%%);@
 #else@
     GDO_WRAP_DECL@
     %%type%% GDO_WRAP(%%func_symbol%%) (%%args%%) {@
-- 
2.43.0


From 9e899bf4899d5605812571b36d1ed4ae7af5d47f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:59 +0000
Subject: [PATCH 51/53] fix: dlfcn-win32 uses narrow characters, also if
 _UNICODE is defined

With GDO_USE_DLOPEN gdo_char_t is always char, but <tchar.h> macros follow
_UNICODE. The message box text was also formatted into the buffer that
holds the message.
---
 src/templates/c.c | 26 +++++++++++++++-----------
 src/templates/c.h |  2 +-
 2 files changed, 16 insertions(+), 12 deletions(-)

diff --git a/src/templates/c.c b/src/templates/c.c
index 161c200..07e9dd1 100644
--- a/src/templates/c.c
+++ b/src/templates/c.c
@@ -61,7 +61,7 @@ GDO_INLINE bool _gdo_libpath_dladdr(void);
 /* strstr() / wcsstr() */
 GDO_INLINE const gdo_char_t *_gdo_tcsstr(const gdo_char_t *haystack, const gdo_char_t *needle)
 {
-#ifdef _WIN32
+#ifdef GDO_WINAPI
     return _tcsstr(haystack, needle);
 #else
     return strstr(haystack, needle);
@@ -70,7 +70,7 @@ GDO_INLINE const gdo_char_t *_gdo_tcsstr(const gdo_char_t *haystack, const gdo_c
 
 
 /* snprintf() / snwprintf() */
-#ifdef _WIN32
+#ifdef GDO_WINAPI
 # define GDO_SNPRINTF(DEST, FORMAT, ...) \
     _sntprintf_s(DEST, _countof(DEST), _TRUNCATE, FORMAT, __VA_ARGS__)
 #else
@@ -900,23 +900,27 @@ GDO_INLINE void _gdo_print_error(const gdo_char_t *type, const gdo_char_t *lib,
         lib = _T("");
     }
 
-#ifdef _WIN32
+#if defined(_WIN32) && defined(GDO_USE_MESSAGE_BOX)
 
-# ifdef GDO_USE_MESSAGE_BOX
-    /* we can safely use gdo_hndl.errbuf, the last error message
-     * was saved in gdo_hndl.formatted */
-    _sntprintf_s(gdo_hndl.errbuf, GDO_BUFLEN, _TRUNCATE, _T("%s: %s%s%s: %s"), type, lib, sep, sym, msg);
-    MessageBox(NULL, gdo_hndl.errbuf, _T("Error"), MB_OK | MB_ICONERROR);
+    /* we can safely use gdo_hndl.libpath: the program ends after this message
+     * (`msg' may point to gdo_hndl.errbuf or gdo_hndl.formatted) */
+    GDO_SNPRINTF(gdo_hndl.libpath, _T("%s: %s%s%s: %s"), type, lib, sep, sym, msg);
+# ifdef _GDO_TARGET_WIDECHAR
+    MessageBoxW(NULL, gdo_hndl.libpath, L"Error", MB_OK | MB_ICONERROR);
 # else
+    MessageBoxA(NULL, gdo_hndl.libpath, "Error", MB_OK | MB_ICONERROR);
+# endif
+
+#elif defined(GDO_WINAPI)
+
     _ftprintf_s(stderr, _T("%s: %s%s%s: %s"), type, lib, sep, sym, msg);
     _fputtc(_T('\n'), stderr);
-# endif //GDO_USE_MESSAGE_BOX
 
-#else //!_WIN32
+#else
 
     fprintf(stderr, "%s: %s%s%s: %s\n", type, lib, sep, sym, msg);
 
-#endif //!_WIN32
+#endif
 }
 
 /* used by wrapper functions */
diff --git a/src/templates/c.h b/src/templates/c.h
index 12a40b7..fffcb29 100644
--- a/src/templates/c.h
+++ b/src/templates/c.h
@@ -2,7 +2,7 @@
 /*                                   C API                                   */
 /*****************************************************************************/
 
-#ifdef _WIN32
+#ifdef GDO_WINAPI
 # include <tchar.h>
 #else
 # undef _T
-- 
2.43.0


From 2e8f3b4a518127318348165adb251ee6b16ebdf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:01 +0000
Subject: [PATCH 52/53] fix: GDO_LIBNAME() and GDO_LIBEXT are narrow with
 dlfcn-win32

With GDO_USE_DLOPEN file names are narrow strings, also if _UNICODE is
defined.
---
 src/templates/filename_macros.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/templates/filename_macros.h b/src/templates/filename_macros.h
index a02951f..d7d8756 100644
--- a/src/templates/filename_macros.h
+++ b/src/templates/filename_macros.h
@@ -82,7 +82,7 @@ GDO_LIBEXTW
 /* wide/narrow character default macros */
 #undef GDO_LIBEXT
 #undef GDO_LIBNAME
-#if defined(_WIN32) && defined(_UNICODE)
+#if defined(_WIN32) && defined(_UNICODE) && !defined(GDO_USE_DLOPEN)
 # define GDO_LIBEXT              GDO_LIBEXTW
 # define GDO_LIBNAME(NAME, API)  GDO_LIBNAMEW(NAME, API)
 #else
-- 
2.43.0


From ecb60802b4d6b56201429f55c7e61b5e62264c97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:01:43 +0000
Subject: [PATCH 53/53] fix: utils::replace() never ends if the replacement
 contains the placeholder

The position behind the replacement was not used by the search. A type taken
from a Clang AST file may contain anything, e.g. '%%sym_type%%)'.
---
 src/utils.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/utils.cpp b/src/utils.cpp
index fb07efb..7784384 100644
--- a/src/utils.cpp
+++ b/src/utils.cpp
@@ -146,7 +146,8 @@ void utils::replace(const std::string &from, const std::string &to, std::string
 {
     size_t pos = 0;
 
-    while (utils::find(str, from, pos)) {
+    /* never look at a replacement again, it might contain the placeholder */
+    while ((pos = str.find(from, pos)) != std::string::npos) {
         str.replace(pos, from.size(), to);
         pos += to.size();
     }
-- 
2.43.0

