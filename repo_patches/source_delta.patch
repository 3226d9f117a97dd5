From 531a170be6029d3c027010f346e164eda9f24a25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:51 +0000
Subject: [PATCH 01/20] fix: Diff of exp(v) ignored which variable is
 differentiated

d/dy exp(x) returned exp(x): the shortcut for exp(variable) did not look at the
variable's name. Use the general chain rule; Simplify drops the factor 1.
---
 single/include/tomsolver/tomsolver.h | 4 ----
 src/tomsolver/diff.cpp               | 4 ----
 2 files changed, 8 deletions(-)

diff --git a/single/include/tomsolver/tomsolver.h b/single/include/tomsolver/tomsolver.h
index 5cae8a4..0dcd97c 100644
--- a/single/include/tomsolver/tomsolver.h
+++ b/single/include/tomsolver/tomsolver.h
@@ -4225,10 +4225,6 @@ public:
                 return;
             }
 
-            // e^x=e^x
-            if (node->left->type == NodeType::VARIABLE)
-                return;
-
             // (e^u)' = e^u * u'
             auto u2 = Clone(node->left);
             q.emplace(*u2);
diff --git a/src/tomsolver/diff.cpp b/src/tomsolver/diff.cpp
index a83450e..b3ef1bf 100644
--- a/src/tomsolver/diff.cpp
+++ b/src/tomsolver/diff.cpp
@@ -241,10 +241,6 @@ public:
                 return;
             }
 
-            // e^x=e^x
-            if (node->left->type == NodeType::VARIABLE)
-                return;
-
             // (e^u)' = e^u * u'
             auto u2 = Clone(node->left);
             q.emplace(*u2);
-- 
2.43.0


From d5d4bbcad217e0f28a29eebd367b84e7c8413007 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:05 +0000
Subject: [PATCH 02/20] fix: SolveByNewtonRaphson started the iteration from 0

The first update was applied to a zero vector instead of the given initial
values, so initial values had no effect except on the first Jacobian.
---
 single/include/tomsolver/tomsolver.h | 3 +--
 src/tomsolver/nonlinear.cpp          | 3 +--
 2 files changed, 2 insertions(+), 4 deletions(-)

diff --git a/single/include/tomsolver/tomsolver.h b/single/include/tomsolver/tomsolver.h
index 0dcd97c..fcc5016 100644
--- a/single/include/tomsolver/tomsolver.h
+++ b/single/include/tomsolver/tomsolver.h
@@ -3802,8 +3802,7 @@ inline void PrintAtIterationStart(int it) noexcept {
 inline VarsTable SolveByNewtonRaphson(const SymVec &equations, const VarsTable &varsTable) {
     int it = 0; // 迭代计数
     VarsTable table = varsTable;
-    int n = table.VarNums(); // 未知量数量
-    Vec q(n);                // x向量
+    Vec q = table.Values(); // x向量
     internal::PrintSolveStartInfo(equations, varsTable);
 
     SymMat JaEqs = Jacobian(equations, table.Vars());
diff --git a/src/tomsolver/nonlinear.cpp b/src/tomsolver/nonlinear.cpp
index dd1c74e..3943d94 100644
--- a/src/tomsolver/nonlinear.cpp
+++ b/src/tomsolver/nonlinear.cpp
@@ -89,8 +89,7 @@ void PrintAtIterationStart(int it) noexcept {
 VarsTable SolveByNewtonRaphson(const SymVec &equations, const VarsTable &varsTable) {
     int it = 0; // 迭代计数
     VarsTable table = varsTable;
-    int n = table.VarNums(); // 未知量数量
-    Vec q(n);                // x向量
+    Vec q = table.Values(); // x向量
     internal::PrintSolveStartInfo(equations, varsTable);
 
     SymMat JaEqs = Jacobian(equations, table.Vars());
-- 
2.43.0


From fb164b630a292c96a327e30abfbfe2df0ba4b205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:11 +0000
Subject: [PATCH 03/20] fix: EachDivide divided b by itself instead of a by b

---
 single/include/tomsolver/tomsolver.h | 2 +-
 src/tomsolver/mat.cpp                | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/single/include/tomsolver/tomsolver.h b/single/include/tomsolver/tomsolver.h
index fcc5016..5c79649 100644
--- a/single/include/tomsolver/tomsolver.h
+++ b/single/include/tomsolver/tomsolver.h
@@ -2267,7 +2267,7 @@ inline Mat operator*(double k, const Mat &mat) noexcept {
 inline Mat EachDivide(const Mat &a, const Mat &b) noexcept {
     assert(a.rows == b.rows);
     assert(a.cols == b.cols);
-    return {a.rows, b.cols, b.data / b.data};
+    return {a.rows, b.cols, a.data / b.data};
 }
 
 inline bool IsZero(const Mat &mat) noexcept {
diff --git a/src/tomsolver/mat.cpp b/src/tomsolver/mat.cpp
index ee1e783..82532af 100644
--- a/src/tomsolver/mat.cpp
+++ b/src/tomsolver/mat.cpp
@@ -270,7 +270,7 @@ Mat operator*(double k, const Mat &mat) noexcept {
 Mat EachDivide(const Mat &a, const Mat &b) noexcept {
     assert(a.rows == b.rows);
     assert(a.cols == b.cols);
-    return {a.rows, b.cols, b.data / b.data};
+    return {a.rows, b.cols, a.data / b.data};
 }
 
 bool IsZero(const Mat &mat) noexcept {
-- 
2.43.0


From a9c535f747b87f70c3350a62c8993d844bacbd65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:34 +0000
Subject: [PATCH 04/20] fix: compound assignment of a node with itself crashed

a += a (and -=, *=, /=, ^=) moved a away and then copied the null pointer.
Take the right operand before the left one is moved.
---
 single/include/tomsolver/tomsolver.h | 30 +++++++++++++++++++++++-----
 src/tomsolver/node.cpp               |  8 ++++++++
 src/tomsolver/node.h                 | 22 +++++++++++++++-----
 3 files changed, 50 insertions(+), 10 deletions(-)

diff --git a/single/include/tomsolver/tomsolver.h b/single/include/tomsolver/tomsolver.h
index 5c79649..8772bf1 100644
--- a/single/include/tomsolver/tomsolver.h
+++ b/single/include/tomsolver/tomsolver.h
@@ -851,6 +851,13 @@ inline void CopyOrMoveTo(NodeImpl *parent, Node &child, Node &&n1) noexcept;
  */
 inline void CopyOrMoveTo(NodeImpl *parent, Node &child, const Node &n1) noexcept;
 
+/**
+ * 返回n的一份拷贝（左值），或者把n移动出来（右值）。
+ * 用法：CopyOrMove(std::forward<T>(n));
+ */
+inline Node CopyOrMove(Node &&n) noexcept;
+inline Node CopyOrMove(const Node &n) noexcept;
+
 /**
  * 重载std::ostream的<<操作符以输出一个Node节点。
  */
@@ -925,7 +932,8 @@ inline SfinaeNode<T1, T2> operator+(T1 &&n1, T2 &&n2) noexcept {
 
 template <typename T>
 inline SfinaeNode<T> &operator+=(Node &n1, T &&n2) noexcept {
-    n1 = internal::BinaryOperator(MathOperator::MATH_ADD, std::move(n1), std::forward<T>(n2));
+    auto rhs = internal::CopyOrMove(std::forward<T>(n2)); // n2可能就是n1，必须在移动n1之前取得
+    n1 = internal::BinaryOperator(MathOperator::MATH_ADD, std::move(n1), std::move(rhs));
     return n1;
 }
 
@@ -946,7 +954,8 @@ inline SfinaeNode<T> operator+(T &&n1) noexcept {
 
 template <typename T>
 inline SfinaeNode<T> &operator-=(Node &n1, T &&n2) noexcept {
-    n1 = internal::BinaryOperator(MathOperator::MATH_SUB, std::move(n1), std::forward<T>(n2));
+    auto rhs = internal::CopyOrMove(std::forward<T>(n2)); // n2可能就是n1，必须在移动n1之前取得
+    n1 = internal::BinaryOperator(MathOperator::MATH_SUB, std::move(n1), std::move(rhs));
     return n1;
 }
 
@@ -957,7 +966,8 @@ inline SfinaeNode<T1, T2> operator*(T1 &&n1, T2 &&n2) noexcept {
 
 template <typename T>
 inline SfinaeNode<T> &operator*=(Node &n1, T &&n2) noexcept {
-    n1 = internal::BinaryOperator(MathOperator::MATH_MULTIPLY, std::move(n1), std::forward<T>(n2));
+    auto rhs = internal::CopyOrMove(std::forward<T>(n2)); // n2可能就是n1，必须在移动n1之前取得
+    n1 = internal::BinaryOperator(MathOperator::MATH_MULTIPLY, std::move(n1), std::move(rhs));
     return n1;
 }
 
@@ -968,7 +978,8 @@ inline SfinaeNode<T1, T2> operator/(T1 &&n1, T2 &&n2) noexcept {
 
 template <typename T>
 inline SfinaeNode<T> &operator/=(Node &n1, T &&n2) noexcept {
-    n1 = internal::BinaryOperator(MathOperator::MATH_DIVIDE, std::move(n1), std::forward<T>(n2));
+    auto rhs = internal::CopyOrMove(std::forward<T>(n2)); // n2可能就是n1，必须在移动n1之前取得
+    n1 = internal::BinaryOperator(MathOperator::MATH_DIVIDE, std::move(n1), std::move(rhs));
     return n1;
 }
 
@@ -979,7 +990,8 @@ inline SfinaeNode<T1, T2> operator^(T1 &&n1, T2 &&n2) noexcept {
 
 template <typename T>
 inline SfinaeNode<T> &operator^=(Node &n1, T &&n2) noexcept {
-    n1 = internal::BinaryOperator(MathOperator::MATH_POWER, std::move(n1), std::forward<T>(n2));
+    auto rhs = internal::CopyOrMove(std::forward<T>(n2)); // n2可能就是n1，必须在移动n1之前取得
+    n1 = internal::BinaryOperator(MathOperator::MATH_POWER, std::move(n1), std::move(rhs));
     return n1;
 }
 
@@ -1556,6 +1568,14 @@ inline void CopyOrMoveTo(NodeImpl *parent, Node &child, const Node &n1) noexcept
     child = std::move(n1Clone);
 }
 
+inline Node CopyOrMove(Node &&n) noexcept {
+    return std::move(n);
+}
+
+inline Node CopyOrMove(const Node &n) noexcept {
+    return Clone(n);
+}
+
 inline std::ostream &operator<<(std::ostream &out, const Node &n) noexcept {
     out << n->ToString();
     return out;
diff --git a/src/tomsolver/node.cpp b/src/tomsolver/node.cpp
index 2bc8831..485c67c 100644
--- a/src/tomsolver/node.cpp
+++ b/src/tomsolver/node.cpp
@@ -587,6 +587,14 @@ void CopyOrMoveTo(NodeImpl *parent, Node &child, const Node &n1) noexcept {
     child = std::move(n1Clone);
 }
 
+Node CopyOrMove(Node &&n) noexcept {
+    return std::move(n);
+}
+
+Node CopyOrMove(const Node &n) noexcept {
+    return Clone(n);
+}
+
 std::ostream &operator<<(std::ostream &out, const Node &n) noexcept {
     out << n->ToString();
     return out;
diff --git a/src/tomsolver/node.h b/src/tomsolver/node.h
index 353af17..51d1889 100644
--- a/src/tomsolver/node.h
+++ b/src/tomsolver/node.h
@@ -164,6 +164,13 @@ void CopyOrMoveTo(NodeImpl *parent, Node &child, Node &&n1) noexcept;
  */
 void CopyOrMoveTo(NodeImpl *parent, Node &child, const Node &n1) noexcept;
 
+/**
+ * 返回n的一份拷贝（左值），或者把n移动出来（右值）。
+ * 用法：CopyOrMove(std::forward<T>(n));
+ */
+Node CopyOrMove(Node &&n) noexcept;
+Node CopyOrMove(const Node &n) noexcept;
+
 /**
  * 重载std::ostream的<<操作符以输出一个Node节点。
  */
@@ -238,7 +245,8 @@ SfinaeNode<T1, T2> operator+(T1 &&n1, T2 &&n2) noexcept {
 
 template <typename T>
 SfinaeNode<T> &operator+=(Node &n1, T &&n2) noexcept {
-    n1 = internal::BinaryOperator(MathOperator::MATH_ADD, std::move(n1), std::forward<T>(n2));
+    auto rhs = internal::CopyOrMove(std::forward<T>(n2)); // n2可能就是n1，必须在移动n1之前取得
+    n1 = internal::BinaryOperator(MathOperator::MATH_ADD, std::move(n1), std::move(rhs));
     return n1;
 }
 
@@ -259,7 +267,8 @@ SfinaeNode<T> operator+(T &&n1) noexcept {
 
 template <typename T>
 SfinaeNode<T> &operator-=(Node &n1, T &&n2) noexcept {
-    n1 = internal::BinaryOperator(MathOperator::MATH_SUB, std::move(n1), std::forward<T>(n2));
+    auto rhs = internal::CopyOrMove(std::forward<T>(n2)); // n2可能就是n1，必须在移动n1之前取得
+    n1 = internal::BinaryOperator(MathOperator::MATH_SUB, std::move(n1), std::move(rhs));
     return n1;
 }
 
@@ -270,7 +279,8 @@ SfinaeNode<T1, T2> operator*(T1 &&n1, T2 &&n2) noexcept {
 
 template <typename T>
 SfinaeNode<T> &operator*=(Node &n1, T &&n2) noexcept {
-    n1 = internal::BinaryOperator(MathOperator::MATH_MULTIPLY, std::move(n1), std::forward<T>(n2));
+    auto rhs = internal::CopyOrMove(std::forward<T>(n2)); // n2可能就是n1，必须在移动n1之前取得
+    n1 = internal::BinaryOperator(MathOperator::MATH_MULTIPLY, std::move(n1), std::move(rhs));
     return n1;
 }
 
@@ -281,7 +291,8 @@ SfinaeNode<T1, T2> operator/(T1 &&n1, T2 &&n2) noexcept {
 
 template <typename T>
 SfinaeNode<T> &operator/=(Node &n1, T &&n2) noexcept {
-    n1 = internal::BinaryOperator(MathOperator::MATH_DIVIDE, std::move(n1), std::forward<T>(n2));
+    auto rhs = internal::CopyOrMove(std::forward<T>(n2)); // n2可能就是n1，必须在移动n1之前取得
+    n1 = internal::BinaryOperator(MathOperator::MATH_DIVIDE, std::move(n1), std::move(rhs));
     return n1;
 }
 
@@ -292,7 +303,8 @@ SfinaeNode<T1, T2> operator^(T1 &&n1, T2 &&n2) noexcept {
 
 template <typename T>
 SfinaeNode<T> &operator^=(Node &n1, T &&n2) noexcept {
-    n1 = internal::BinaryOperator(MathOperator::MATH_POWER, std::move(n1), std::forward<T>(n2));
+    auto rhs = internal::CopyOrMove(std::forward<T>(n2)); // n2可能就是n1，必须在移动n1之前取得
+    n1 = internal::BinaryOperator(MathOperator::MATH_POWER, std::move(n1), std::move(rhs));
     return n1;
 }
 
-- 
2.43.0


From 3443992915e309b85c2ea5dd853c6bdbe89e8522 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:52 +0000
Subject: [PATCH 05/20] fix: Parse did not know asin, acos and atan

ToString prints these names (and the examples document them), but Parse only
accepted arcsin, arccos and arctan, so printed expressions could not be read.
---
 single/include/tomsolver/tomsolver.h | 3 +++
 src/tomsolver/parse.cpp              | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/single/include/tomsolver/tomsolver.h b/single/include/tomsolver/tomsolver.h
index 8772bf1..138d838 100644
--- a/single/include/tomsolver/tomsolver.h
+++ b/single/include/tomsolver/tomsolver.h
@@ -3400,10 +3400,13 @@ inline MathOperator Str2Function(internal::StringView s) noexcept {
     case "tan"_fnv1a:
         return MathOperator::MATH_TAN;
     case "arcsin"_fnv1a:
+    case "asin"_fnv1a:
         return MathOperator::MATH_ARCSIN;
     case "arccos"_fnv1a:
+    case "acos"_fnv1a:
         return MathOperator::MATH_ARCCOS;
     case "arctan"_fnv1a:
+    case "atan"_fnv1a:
         return MathOperator::MATH_ARCTAN;
     case "sqrt"_fnv1a:
         return MathOperator::MATH_SQRT;
diff --git a/src/tomsolver/parse.cpp b/src/tomsolver/parse.cpp
index 509ea18..70ba292 100644
--- a/src/tomsolver/parse.cpp
+++ b/src/tomsolver/parse.cpp
@@ -91,10 +91,13 @@ MathOperator Str2Function(internal::StringView s) noexcept {
     case "tan"_fnv1a:
         return MathOperator::MATH_TAN;
     case "arcsin"_fnv1a:
+    case "asin"_fnv1a:
         return MathOperator::MATH_ARCSIN;
     case "arccos"_fnv1a:
+    case "acos"_fnv1a:
         return MathOperator::MATH_ARCCOS;
     case "arctan"_fnv1a:
+    case "atan"_fnv1a:
         return MathOperator::MATH_ARCTAN;
     case "sqrt"_fnv1a:
         return MathOperator::MATH_SQRT;
-- 
2.43.0


From 82ed39cf3990294dd2713ae1c93517b72f331d19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:59 +0000
Subject: [PATCH 06/20] fix: the error for an invalid variable name showed only
 the token

The position of a SingleParseError refers to the whole input, which is what
the message must quote.
---
 single/include/tomsolver/tomsolver.h | 2 +-
 src/tomsolver/parse.cpp              | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/single/include/tomsolver/tomsolver.h b/single/include/tomsolver/tomsolver.h
index 138d838..5328d56 100644
--- a/single/include/tomsolver/tomsolver.h
+++ b/single/include/tomsolver/tomsolver.h
@@ -3487,7 +3487,7 @@ inline std::deque<Token> ParseFunctions::ParseToTokens(StringView content) {
             // 非运算符、数字、函数
             if (!VarNameIsLegal(expStr)) // 变量名首字符需为下划线或字母
             {
-                throw SingleParseError(token.line, token.pos, exp, "Invalid variable name: \"", exp, "\"");
+                throw SingleParseError(token.line, token.pos, content, "Invalid variable name: \"", exp, "\"");
             }
 
             token.node = Var(expStr);
diff --git a/src/tomsolver/parse.cpp b/src/tomsolver/parse.cpp
index 70ba292..1b9e670 100644
--- a/src/tomsolver/parse.cpp
+++ b/src/tomsolver/parse.cpp
@@ -178,7 +178,7 @@ std::deque<Token> ParseFunctions::ParseToTokens(StringView content) {
             // 非运算符、数字、函数
             if (!VarNameIsLegal(expStr)) // 变量名首字符需为下划线或字母
             {
-                throw SingleParseError(token.line, token.pos, exp, "Invalid variable name: \"", exp, "\"");
+                throw SingleParseError(token.line, token.pos, content, "Invalid variable name: \"", exp, "\"");
             }
 
             token.node = Var(expStr);
-- 
2.43.0


From b763c7cdcebe790d8d887ffd8f288ab5da656688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:04 +0000
Subject: [PATCH 07/20] fix: VarNameIsLegal overflowed the stack on long names

std::regex_match recurses per character, so a long identifier (about 100 kB)
in an expression crashed the process.
---
 single/include/tomsolver/tomsolver.h | 6 +++++-
 src/tomsolver/node.cpp               | 8 ++++++--
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/single/include/tomsolver/tomsolver.h b/single/include/tomsolver/tomsolver.h
index 5328d56..a05ab9e 100644
--- a/single/include/tomsolver/tomsolver.h
+++ b/single/include/tomsolver/tomsolver.h
@@ -1650,7 +1650,11 @@ inline Node Op(MathOperator op) {
 }
 
 inline bool VarNameIsLegal(const std::string &varname) noexcept {
-    return std::regex_match(varname.begin(), varname.end(), std::regex{R"((?=\w)\D\w*)"});
+    auto isWord = [](char c) {
+        return c == '_' || (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || (c >= '0' && c <= '9');
+    };
+    return !varname.empty() && !(varname.front() >= '0' && varname.front() <= '9') &&
+           std::all_of(varname.begin(), varname.end(), isWord);
 }
 
 inline Node Var(std::string varname) {
diff --git a/src/tomsolver/node.cpp b/src/tomsolver/node.cpp
index 485c67c..fa7fdec 100644
--- a/src/tomsolver/node.cpp
+++ b/src/tomsolver/node.cpp
@@ -3,13 +3,13 @@
 #include "config.h"
 #include "math_operator.h"
 
+#include <algorithm>
 #include <cassert>
 #include <forward_list>
 #include <functional>
 #include <iostream>
 #include <limits>
 #include <memory>
-#include <regex>
 #include <stack>
 #include <string>
 #include <type_traits>
@@ -669,7 +669,11 @@ Node Op(MathOperator op) {
 }
 
 bool VarNameIsLegal(const std::string &varname) noexcept {
-    return std::regex_match(varname.begin(), varname.end(), std::regex{R"((?=\w)\D\w*)"});
+    auto isWord = [](char c) {
+        return c == '_' || (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || (c >= '0' && c <= '9');
+    };
+    return !varname.empty() && !(varname.front() >= '0' && varname.front() <= '9') &&
+           std::all_of(varname.begin(), varname.end(), isWord);
 }
 
 Node Var(std::string varname) {
-- 
2.43.0


From 1c12dcc0f9e52007548483a02dba634daf898b33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:37 +0000
Subject: [PATCH 08/20] fix: Parse rejected literals with a signed exponent

ToString prints large and small numbers as 1e+20 or 1e-17, but the tokenizer
split them at the sign and reported an invalid variable name.
---
 single/include/tomsolver/tomsolver.h | 19 ++++++++++++++++++-
 src/tomsolver/parse.cpp              | 19 ++++++++++++++++++-
 2 files changed, 36 insertions(+), 2 deletions(-)

diff --git a/single/include/tomsolver/tomsolver.h b/single/include/tomsolver/tomsolver.h
index a05ab9e..4fda20b 100644
--- a/single/include/tomsolver/tomsolver.h
+++ b/single/include/tomsolver/tomsolver.h
@@ -3365,6 +3365,21 @@ inline bool IsBasicOperator(char c) noexcept {
     return false;
 }
 
+inline bool IsDigit(char c) noexcept {
+    return c >= '0' && c <= '9';
+}
+
+/* cur处的字符是否为科学计数法中的指数符号。例如"1.5e-3"中的"-"。[begin, cur)是当前记号，end是输入的末尾。 */
+inline bool IsExponentSign(const char *begin, const char *cur, const char *end) noexcept {
+    if ((*cur != '+' && *cur != '-') || cur - begin < 2 || (cur[-1] != 'e' && cur[-1] != 'E') || end - cur < 2 ||
+        !IsDigit(cur[1])) {
+        return false;
+    }
+    auto digits = std::count_if(begin, cur - 1, IsDigit);
+    auto points = std::count(begin, cur - 1, '.');
+    return digits > 0 && points <= 1 && digits + points == cur - 1 - begin;
+}
+
 /*  */
 inline MathOperator BaseOperatorCharToEnum(char c, bool unary) noexcept {
     switch (c) {
@@ -3499,7 +3514,9 @@ inline std::deque<Token> ParseFunctions::ParseToTokens(StringView content) {
     };
 
     while (iter != content.end()) {
-        if (IsBasicOperator(*iter)) {
+        if (IsExponentSign(nameIter, iter, content.end())) {
+            ++iter; // 科学计数法的指数符号，是数字的一部分
+        } else if (IsBasicOperator(*iter)) {
             tryComfirmToken();
             auto unaryOp = ret.empty() || (ret.back().node->type == NodeType::OPERATOR &&
                                            ret.back().node->op != MathOperator::MATH_RIGHT_PARENTHESIS);
diff --git a/src/tomsolver/parse.cpp b/src/tomsolver/parse.cpp
index 1b9e670..0ed92a4 100644
--- a/src/tomsolver/parse.cpp
+++ b/src/tomsolver/parse.cpp
@@ -52,6 +52,21 @@ bool IsBasicOperator(char c) noexcept {
     return false;
 }
 
+bool IsDigit(char c) noexcept {
+    return c >= '0' && c <= '9';
+}
+
+/* cur处的字符是否为科学计数法中的指数符号。例如"1.5e-3"中的"-"。[begin, cur)是当前记号，end是输入的末尾。 */
+bool IsExponentSign(const char *begin, const char *cur, const char *end) noexcept {
+    if ((*cur != '+' && *cur != '-') || cur - begin < 2 || (cur[-1] != 'e' && cur[-1] != 'E') || end - cur < 2 ||
+        !IsDigit(cur[1])) {
+        return false;
+    }
+    auto digits = std::count_if(begin, cur - 1, IsDigit);
+    auto points = std::count(begin, cur - 1, '.');
+    return digits > 0 && points <= 1 && digits + points == cur - 1 - begin;
+}
+
 /*  */
 MathOperator BaseOperatorCharToEnum(char c, bool unary) noexcept {
     switch (c) {
@@ -186,7 +201,9 @@ std::deque<Token> ParseFunctions::ParseToTokens(StringView content) {
     };
 
     while (iter != content.end()) {
-        if (IsBasicOperator(*iter)) {
+        if (IsExponentSign(nameIter, iter, content.end())) {
+            ++iter; // 科学计数法的指数符号，是数字的一部分
+        } else if (IsBasicOperator(*iter)) {
             tryComfirmToken();
             auto unaryOp = ret.empty() || (ret.back().node->type == NodeType::OPERATOR &&
                                            ret.back().node->op != MathOperator::MATH_RIGHT_PARENTHESIS);
-- 
2.43.0


From 3502d0634b9a8396bc0322a6857ffa27dcf158b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:36 +0000
Subject: [PATCH 09/20] fix: Parse crashed on or accepted malformed expressions

"()", "(x))" and blank input popped from an empty stack; "1 2 +", "x sin",
"x()", "3 (4 +)" were silently accepted. A binary operator, a right
parenthesis and the end of the input each need an operand before them, and a
closed parenthesis must be taken off the balance.
---
 single/include/tomsolver/tomsolver.h | 25 +++++++++++++++++++++++++
 src/tomsolver/parse.cpp              | 25 +++++++++++++++++++++++++
 2 files changed, 50 insertions(+)

diff --git a/single/include/tomsolver/tomsolver.h b/single/include/tomsolver/tomsolver.h
index 4fda20b..b5d1f62 100644
--- a/single/include/tomsolver/tomsolver.h
+++ b/single/include/tomsolver/tomsolver.h
@@ -3535,6 +3535,10 @@ inline std::deque<Token> ParseFunctions::ParseToTokens(StringView content) {
 
     tryComfirmToken();
 
+    if (ret.empty()) {
+        throw SingleParseError(0, 0, content, "empty input");
+    }
+
     return ret;
 }
 
@@ -3543,6 +3547,14 @@ inline std::vector<Token> ParseFunctions::InOrderToPostOrder(std::deque<Token> &
     int parenthesisBalance = 0;
     std::stack<Token> tokenStack;
 
+    // 检查前一个记号是否为操作数的结尾。二元运算符、右括号之前以及输入的末尾都必须是操作数。
+    bool prevIsOperand = false;
+    auto requireOperand = [&prevIsOperand](const Token &token) {
+        if (!prevIsOperand) {
+            throw SingleParseError(token.line, token.pos, token.content, "Operand missing at: \"", token.s, "\"");
+        }
+    };
+
     auto popToken = [&tokenStack] {
         auto r = std::move(tokenStack.top());
         tokenStack.pop();
@@ -3558,6 +3570,7 @@ inline std::vector<Token> ParseFunctions::InOrderToPostOrder(std::deque<Token> &
         case NodeType::NUMBER:
         case NodeType::VARIABLE:
             postOrder.emplace_back(std::move(f));
+            prevIsOperand = true;
             continue;
         case NodeType::OPERATOR:
             break;
@@ -3568,16 +3581,20 @@ inline std::vector<Token> ParseFunctions::InOrderToPostOrder(std::deque<Token> &
         switch (f.node->op) {
         case MathOperator::MATH_LEFT_PARENTHESIS:
             parenthesisBalance++;
+            prevIsOperand = false;
             break;
 
         case MathOperator::MATH_POSITIVE:
         case MathOperator::MATH_NEGATIVE:
+            prevIsOperand = false;
             break;
 
         case MathOperator::MATH_RIGHT_PARENTHESIS:
             if (parenthesisBalance == 0) {
                 throw SingleParseError(f.line, f.pos, f.content, "Parenthesis not match: \"", f.s, "\"");
             }
+            requireOperand(f);
+            parenthesisBalance--;
             for (auto token = popToken(); token.node->op != MathOperator::MATH_LEFT_PARENTHESIS; token = popToken()) {
                 postOrder.emplace_back(std::move(token));
             }
@@ -3592,6 +3609,10 @@ inline std::vector<Token> ParseFunctions::InOrderToPostOrder(std::deque<Token> &
 
         default:
             // 不是括号也不是正负号
+            if (!IsFunction(f.node->op)) {
+                requireOperand(f);
+            }
+            prevIsOperand = false;
             if (!tokenStack.empty()) {
                 auto compare =
                     IsLeft2Right(f.node->op)
@@ -3614,6 +3635,10 @@ inline std::vector<Token> ParseFunctions::InOrderToPostOrder(std::deque<Token> &
             break;
         }
 
+        if (inOrder.empty()) { // 最后一个记号不是操作数
+            requireOperand(f);
+        }
+
         tokenStack.push(std::move(f)); // 高优先级已全部挤出，当前符号入栈
     }
 
diff --git a/src/tomsolver/parse.cpp b/src/tomsolver/parse.cpp
index 0ed92a4..7927605 100644
--- a/src/tomsolver/parse.cpp
+++ b/src/tomsolver/parse.cpp
@@ -222,6 +222,10 @@ std::deque<Token> ParseFunctions::ParseToTokens(StringView content) {
 
     tryComfirmToken();
 
+    if (ret.empty()) {
+        throw SingleParseError(0, 0, content, "empty input");
+    }
+
     return ret;
 }
 
@@ -230,6 +234,14 @@ std::vector<Token> ParseFunctions::InOrderToPostOrder(std::deque<Token> &inOrder
     int parenthesisBalance = 0;
     std::stack<Token> tokenStack;
 
+    // 检查前一个记号是否为操作数的结尾。二元运算符、右括号之前以及输入的末尾都必须是操作数。
+    bool prevIsOperand = false;
+    auto requireOperand = [&prevIsOperand](const Token &token) {
+        if (!prevIsOperand) {
+            throw SingleParseError(token.line, token.pos, token.content, "Operand missing at: \"", token.s, "\"");
+        }
+    };
+
     auto popToken = [&tokenStack] {
         auto r = std::move(tokenStack.top());
         tokenStack.pop();
@@ -245,6 +257,7 @@ std::vector<Token> ParseFunctions::InOrderToPostOrder(std::deque<Token> &inOrder
         case NodeType::NUMBER:
         case NodeType::VARIABLE:
             postOrder.emplace_back(std::move(f));
+            prevIsOperand = true;
             continue;
         case NodeType::OPERATOR:
             break;
@@ -255,16 +268,20 @@ std::vector<Token> ParseFunctions::InOrderToPostOrder(std::deque<Token> &inOrder
         switch (f.node->op) {
         case MathOperator::MATH_LEFT_PARENTHESIS:
             parenthesisBalance++;
+            prevIsOperand = false;
             break;
 
         case MathOperator::MATH_POSITIVE:
         case MathOperator::MATH_NEGATIVE:
+            prevIsOperand = false;
             break;
 
         case MathOperator::MATH_RIGHT_PARENTHESIS:
             if (parenthesisBalance == 0) {
                 throw SingleParseError(f.line, f.pos, f.content, "Parenthesis not match: \"", f.s, "\"");
             }
+            requireOperand(f);
+            parenthesisBalance--;
             for (auto token = popToken(); token.node->op != MathOperator::MATH_LEFT_PARENTHESIS; token = popToken()) {
                 postOrder.emplace_back(std::move(token));
             }
@@ -279,6 +296,10 @@ std::vector<Token> ParseFunctions::InOrderToPostOrder(std::deque<Token> &inOrder
 
         default:
             // 不是括号也不是正负号
+            if (!IsFunction(f.node->op)) {
+                requireOperand(f);
+            }
+            prevIsOperand = false;
             if (!tokenStack.empty()) {
                 auto compare =
                     IsLeft2Right(f.node->op)
@@ -301,6 +322,10 @@ std::vector<Token> ParseFunctions::InOrderToPostOrder(std::deque<Token> &inOrder
             break;
         }
 
+        if (inOrder.empty()) { // 最后一个记号不是操作数
+            requireOperand(f);
+        }
+
         tokenStack.push(std::move(f)); // 高优先级已全部挤出，当前符号入栈
     }
 
-- 
2.43.0


From cf96adfe0ec763dda8caa8af5db3a39be0762e8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:42 +0000
Subject: [PATCH 10/20] fix: Parse applied a function to the wrong operand

A function name popped the functions pending on the stack before their operand
was read: "1+sin cos x" became sin(1)+cos(x). A prefix operator pops nothing.
---
 single/include/tomsolver/tomsolver.h | 10 +++++++---
 src/tomsolver/parse.cpp              | 10 +++++++---
 2 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/single/include/tomsolver/tomsolver.h b/single/include/tomsolver/tomsolver.h
index b5d1f62..4d5ceed 100644
--- a/single/include/tomsolver/tomsolver.h
+++ b/single/include/tomsolver/tomsolver.h
@@ -3608,10 +3608,14 @@ inline std::vector<Token> ParseFunctions::InOrderToPostOrder(std::deque<Token> &
             continue;
 
         default:
-            // 不是括号也不是正负号
-            if (!IsFunction(f.node->op)) {
-                requireOperand(f);
+            // 函数是前缀运算符，它的操作数还未出现，不能挤出任何符号
+            if (IsFunction(f.node->op)) {
+                prevIsOperand = false;
+                break;
             }
+
+            // 不是括号也不是正负号
+            requireOperand(f);
             prevIsOperand = false;
             if (!tokenStack.empty()) {
                 auto compare =
diff --git a/src/tomsolver/parse.cpp b/src/tomsolver/parse.cpp
index 7927605..e09bbaa 100644
--- a/src/tomsolver/parse.cpp
+++ b/src/tomsolver/parse.cpp
@@ -295,10 +295,14 @@ std::vector<Token> ParseFunctions::InOrderToPostOrder(std::deque<Token> &inOrder
             continue;
 
         default:
-            // 不是括号也不是正负号
-            if (!IsFunction(f.node->op)) {
-                requireOperand(f);
+            // 函数是前缀运算符，它的操作数还未出现，不能挤出任何符号
+            if (IsFunction(f.node->op)) {
+                prevIsOperand = false;
+                break;
             }
+
+            // 不是括号也不是正负号
+            requireOperand(f);
             prevIsOperand = false;
             if (!tokenStack.empty()) {
                 auto compare =
-- 
2.43.0


From 1e9b49d23c9adc7cbbbff1d3f6a3f8e025185ea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:06 +0000
Subject: [PATCH 11/20] fix: the MOD operator killed the process on a zero
 divisor

5 % 0 (also 5 % 0.5, the operands are truncated to int) raised SIGFPE, and so
did INT_MIN % -1. A zero divisor is an invalid value like any other.
---
 single/include/tomsolver/tomsolver.h | 5 ++++-
 src/tomsolver/math_operator.cpp      | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/single/include/tomsolver/tomsolver.h b/single/include/tomsolver/tomsolver.h
index 4d5ceed..3a79692 100644
--- a/single/include/tomsolver/tomsolver.h
+++ b/single/include/tomsolver/tomsolver.h
@@ -1973,7 +1973,10 @@ inline double Calc(MathOperator op, double v1, double v2) {
         break;
 
     case MathOperator::MATH_MOD: //%
-        ret = (int)v1 % (int)v2;
+        // 除数为0是无效值。使用64位整数，避免INT_MIN % -1溢出
+        if ((int)v2 != 0) {
+            ret = static_cast<double>(static_cast<long long>((int)v1) % (int)v2);
+        }
         break;
     case MathOperator::MATH_AND: //&
         ret = (int)v1 & (int)v2;
diff --git a/src/tomsolver/math_operator.cpp b/src/tomsolver/math_operator.cpp
index 0872c01..b226326 100644
--- a/src/tomsolver/math_operator.cpp
+++ b/src/tomsolver/math_operator.cpp
@@ -314,7 +314,10 @@ double Calc(MathOperator op, double v1, double v2) {
         break;
 
     case MathOperator::MATH_MOD: //%
-        ret = (int)v1 % (int)v2;
+        // 除数为0是无效值。使用64位整数，避免INT_MIN % -1溢出
+        if ((int)v2 != 0) {
+            ret = static_cast<double>(static_cast<long long>((int)v1) % (int)v2);
+        }
         break;
     case MathOperator::MATH_AND: //&
         ret = (int)v1 & (int)v2;
-- 
2.43.0


From ef9e666458bffa95f2f5e03ecd87649a6a73b9ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:12 +0000
Subject: [PATCH 12/20] fix: errors in Simplify and Jacobian terminated the
 process

Both are noexcept but call Calc and Diff, which throw: Simplify of 1/0 or the
Jacobian of x%2 ended in std::terminate instead of an exception. Simplify also
computes the folded value before it changes the node, which so stays valid.
---
 single/include/tomsolver/tomsolver.h | 25 +++++++++++++++++--------
 src/tomsolver/simplify.cpp           |  8 ++++----
 src/tomsolver/simplify.h             |  6 +++++-
 src/tomsolver/symmat.cpp             |  2 +-
 src/tomsolver/symmat.h               |  9 +++++++--
 5 files changed, 34 insertions(+), 16 deletions(-)

diff --git a/single/include/tomsolver/tomsolver.h b/single/include/tomsolver/tomsolver.h
index 3a79692..ed6771d 100644
--- a/single/include/tomsolver/tomsolver.h
+++ b/single/include/tomsolver/tomsolver.h
@@ -2809,7 +2809,7 @@ protected:
     int rows, cols;
     std::unique_ptr<std::valarray<Node>> data;
 
-    friend SymMat Jacobian(const SymMat &equations, const std::vector<std::string> &vars) noexcept;
+    friend SymMat Jacobian(const SymMat &equations, const std::vector<std::string> &vars);
 };
 
 class SymVec : public SymMat {
@@ -2834,7 +2834,12 @@ public:
     const Node &operator[](std::size_t index) const noexcept;
 };
 
-inline SymMat Jacobian(const SymMat &equations, const std::vector<std::string> &vars) noexcept;
+/**
+ * 求雅可比矩阵。
+ * @exception runtime_error 存在不支持求导的运算符
+ * @exception MathError 出现浮点数无效值(inf, -inf, nan)
+ */
+inline SymMat Jacobian(const SymMat &equations, const std::vector<std::string> &vars);
 
 inline std::ostream &operator<<(std::ostream &out, const SymMat &symMat) noexcept;
 
@@ -3008,7 +3013,11 @@ inline Node Subs(Node &&node, const VarsTable &varsTable) noexcept {
 
 namespace tomsolver {
 
-inline void Simplify(Node &node) noexcept;
+/**
+ * 化简表达式。
+ * @exception MathError 出现浮点数无效值(inf, -inf, nan)
+ */
+inline void Simplify(Node &node);
 
 } // namespace tomsolver
 
@@ -3026,14 +3035,14 @@ public:
     };
 
     // 对单节点n进行化简。
-    static void SimplifySingleNode(std::unique_ptr<NodeImpl> &n) noexcept {
+    static void SimplifySingleNode(std::unique_ptr<NodeImpl> &n) {
         auto parent = n->parent;
         switch (GetOperatorNum(n->op)) {
         // 对于1元运算符，且儿子是数字的，直接计算出来
         case 1:
             if (n->left->type == NodeType::NUMBER) {
+                n->value = tomsolver::Calc(n->op, n->left->value, 0); // 可能抛出异常，此前不能改动n
                 n->type = NodeType::NUMBER;
-                n->value = tomsolver::Calc(n->op, n->left->value, 0);
                 n->op = MathOperator::MATH_NULL;
                 n->left = nullptr;
             }
@@ -3043,8 +3052,8 @@ public:
         case 2:
             // 儿子是数字的，直接计算出来
             if (n->left->type == NodeType::NUMBER && n->right->type == NodeType::NUMBER) {
+                n->value = tomsolver::Calc(n->op, n->left->value, n->right->value); // 可能抛出异常，此前不能改动n
                 n->type = NodeType::NUMBER;
-                n->value = tomsolver::Calc(n->op, n->left->value, n->right->value);
                 n->op = MathOperator::MATH_NULL;
                 n->left = nullptr;
                 n->right = nullptr;
@@ -3176,7 +3185,7 @@ public:
 
 } // namespace internal
 
-inline void Simplify(Node &node) noexcept {
+inline void Simplify(Node &node) {
     internal::SimplifyFunctions::SimplifyWholeNode(node);
     return;
 }
@@ -4660,7 +4669,7 @@ inline const Node &SymVec::operator[](std::size_t index) const noexcept {
     return (*data)[index];
 }
 
-inline SymMat Jacobian(const SymMat &equations, const std::vector<std::string> &vars) noexcept {
+inline SymMat Jacobian(const SymMat &equations, const std::vector<std::string> &vars) {
     int rows = equations.rows;
     int cols = static_cast<int>(vars.size());
     SymMat ja(rows, cols);
diff --git a/src/tomsolver/simplify.cpp b/src/tomsolver/simplify.cpp
index 98a9558..1cf5eb0 100644
--- a/src/tomsolver/simplify.cpp
+++ b/src/tomsolver/simplify.cpp
@@ -21,14 +21,14 @@ public:
     };
 
     // 对单节点n进行化简。
-    static void SimplifySingleNode(std::unique_ptr<NodeImpl> &n) noexcept {
+    static void SimplifySingleNode(std::unique_ptr<NodeImpl> &n) {
         auto parent = n->parent;
         switch (GetOperatorNum(n->op)) {
         // 对于1元运算符，且儿子是数字的，直接计算出来
         case 1:
             if (n->left->type == NodeType::NUMBER) {
+                n->value = tomsolver::Calc(n->op, n->left->value, 0); // 可能抛出异常，此前不能改动n
                 n->type = NodeType::NUMBER;
-                n->value = tomsolver::Calc(n->op, n->left->value, 0);
                 n->op = MathOperator::MATH_NULL;
                 n->left = nullptr;
             }
@@ -38,8 +38,8 @@ public:
         case 2:
             // 儿子是数字的，直接计算出来
             if (n->left->type == NodeType::NUMBER && n->right->type == NodeType::NUMBER) {
+                n->value = tomsolver::Calc(n->op, n->left->value, n->right->value); // 可能抛出异常，此前不能改动n
                 n->type = NodeType::NUMBER;
-                n->value = tomsolver::Calc(n->op, n->left->value, n->right->value);
                 n->op = MathOperator::MATH_NULL;
                 n->left = nullptr;
                 n->right = nullptr;
@@ -171,7 +171,7 @@ public:
 
 } // namespace internal
 
-void Simplify(Node &node) noexcept {
+void Simplify(Node &node) {
     internal::SimplifyFunctions::SimplifyWholeNode(node);
     return;
 }
diff --git a/src/tomsolver/simplify.h b/src/tomsolver/simplify.h
index 97c6b38..2948092 100644
--- a/src/tomsolver/simplify.h
+++ b/src/tomsolver/simplify.h
@@ -3,6 +3,10 @@
 
 namespace tomsolver {
 
-void Simplify(Node &node) noexcept;
+/**
+ * 化简表达式。
+ * @exception MathError 出现浮点数无效值(inf, -inf, nan)
+ */
+void Simplify(Node &node);
 
 } // namespace tomsolver
diff --git a/src/tomsolver/symmat.cpp b/src/tomsolver/symmat.cpp
index 08ecb46..e9750d9 100644
--- a/src/tomsolver/symmat.cpp
+++ b/src/tomsolver/symmat.cpp
@@ -204,7 +204,7 @@ const Node &SymVec::operator[](std::size_t index) const noexcept {
     return (*data)[index];
 }
 
-SymMat Jacobian(const SymMat &equations, const std::vector<std::string> &vars) noexcept {
+SymMat Jacobian(const SymMat &equations, const std::vector<std::string> &vars) {
     int rows = equations.rows;
     int cols = static_cast<int>(vars.size());
     SymMat ja(rows, cols);
diff --git a/src/tomsolver/symmat.h b/src/tomsolver/symmat.h
index 9f4bda8..405870e 100644
--- a/src/tomsolver/symmat.h
+++ b/src/tomsolver/symmat.h
@@ -97,7 +97,7 @@ protected:
     int rows, cols;
     std::unique_ptr<std::valarray<Node>> data;
 
-    friend SymMat Jacobian(const SymMat &equations, const std::vector<std::string> &vars) noexcept;
+    friend SymMat Jacobian(const SymMat &equations, const std::vector<std::string> &vars);
 };
 
 class SymVec : public SymMat {
@@ -122,7 +122,12 @@ public:
     const Node &operator[](std::size_t index) const noexcept;
 };
 
-SymMat Jacobian(const SymMat &equations, const std::vector<std::string> &vars) noexcept;
+/**
+ * 求雅可比矩阵。
+ * @exception runtime_error 存在不支持求导的运算符
+ * @exception MathError 出现浮点数无效值(inf, -inf, nan)
+ */
+SymMat Jacobian(const SymMat &equations, const std::vector<std::string> &vars);
 
 std::ostream &operator<<(std::ostream &out, const SymMat &symMat) noexcept;
 
-- 
2.43.0


From 59daaf6a879e123d016ee9745ba19a3f36dad012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:48 +0000
Subject: [PATCH 13/20] fix: SolveLinear misjudged the rank of singular systems

When the skipped pivot column was the last one, the rank stayed at the number
of rows and a wrong vector was returned without an error; and only the first of
several zero rows was checked for consistency. Count the pivots, and check the
right-hand side of every row without one.
---
 single/include/tomsolver/tomsolver.h | 30 +++++++++++++---------------
 src/tomsolver/linear.cpp             | 30 +++++++++++++---------------
 2 files changed, 28 insertions(+), 32 deletions(-)

diff --git a/single/include/tomsolver/tomsolver.h b/single/include/tomsolver/tomsolver.h
index ed6771d..f208101 100644
--- a/single/include/tomsolver/tomsolver.h
+++ b/single/include/tomsolver/tomsolver.h
@@ -2523,8 +2523,6 @@ inline Vec SolveLinear(Mat A, Vec b) {
     int rows = A.Rows(); // 行数
     int cols = rows;     // 列数=未知数个数
 
-    int RankA = rows, RankAb = rows; // 初始值
-
     assert(rows == b.Rows()); // A行数不等于b行数
 
     Vec ret(rows);
@@ -2546,6 +2544,7 @@ inline Vec SolveLinear(Mat A, Vec b) {
     std::vector<int> TrueRowNumber(cols);
 
     // 列主元消元法
+    int RankA = 0; // 已找到的主元数量
     for (auto y = 0, x = 0; y < rows && x < cols; y++, x++) {
         // if (A[i].size() != rows)
 
@@ -2571,22 +2570,13 @@ inline Vec SolveLinear(Mat A, Vec b) {
             TrueRowNumber[y] = x; // 补齐方程时 当前行应换到x行
         }
 
-        if (x == cols) // 本行全为0
+        if (x == cols) // 本行及以下各行全为0
         {
-            RankA = y;
-            if (std::abs(b[y]) < Config::Get().epsilon) {
-                RankAb = y;
-            }
-
-            if (RankA != RankAb) {
-                // 奇异，且系数矩阵及增广矩阵秩不相等->无解
-                throw MathError(ErrorType::ERROR_SINGULAR_MATRIX);
-            } else {
-                // 跳出for，得到特解
-                break;
-            }
+            break;
         }
 
+        RankA = y + 1;
+
         // 主对角线化为1
         auto ratioY = A.Value(y, x);
         // y行第j个->第cols个
@@ -2605,6 +2595,14 @@ inline Vec SolveLinear(Mat A, Vec b) {
         }
     }
 
+    // 没有主元的行，左边全为0，右边也必须为0
+    for (auto row = RankA; row < rows; row++) {
+        if (!(std::abs(b[row]) < Config::Get().epsilon)) {
+            // 奇异，且系数矩阵及增广矩阵秩不相等->无解
+            throw MathError(ErrorType::ERROR_SINGULAR_MATRIX);
+        }
+    }
+
     bool bIndeterminateEquation = false; // 设置此变量是因为后面rows将=cols，标记以判断是否为不定方程组
 
     // 若为不定方程组，空缺行全填0继续运算
@@ -2630,7 +2628,7 @@ inline Vec SolveLinear(Mat A, Vec b) {
         ret[i] = b[i] - (vec.size() ? vec.sum() : 0);
     }
 
-    if (RankA < cols && RankA == RankAb) {
+    if (RankA < cols) {
         if (bIndeterminateEquation) {
             if (!Config::Get().allowIndeterminateEquation) {
                 throw MathError(ErrorType::ERROR_INDETERMINATE_EQUATION,
diff --git a/src/tomsolver/linear.cpp b/src/tomsolver/linear.cpp
index 2c680db..af21d98 100644
--- a/src/tomsolver/linear.cpp
+++ b/src/tomsolver/linear.cpp
@@ -25,8 +25,6 @@ Vec SolveLinear(Mat A, Vec b) {
     int rows = A.Rows(); // 行数
     int cols = rows;     // 列数=未知数个数
 
-    int RankA = rows, RankAb = rows; // 初始值
-
     assert(rows == b.Rows()); // A行数不等于b行数
 
     Vec ret(rows);
@@ -48,6 +46,7 @@ Vec SolveLinear(Mat A, Vec b) {
     std::vector<int> TrueRowNumber(cols);
 
     // 列主元消元法
+    int RankA = 0; // 已找到的主元数量
     for (auto y = 0, x = 0; y < rows && x < cols; y++, x++) {
         // if (A[i].size() != rows)
 
@@ -73,22 +72,13 @@ Vec SolveLinear(Mat A, Vec b) {
             TrueRowNumber[y] = x; // 补齐方程时 当前行应换到x行
         }
 
-        if (x == cols) // 本行全为0
+        if (x == cols) // 本行及以下各行全为0
         {
-            RankA = y;
-            if (std::abs(b[y]) < Config::Get().epsilon) {
-                RankAb = y;
-            }
-
-            if (RankA != RankAb) {
-                // 奇异，且系数矩阵及增广矩阵秩不相等->无解
-                throw MathError(ErrorType::ERROR_SINGULAR_MATRIX);
-            } else {
-                // 跳出for，得到特解
-                break;
-            }
+            break;
         }
 
+        RankA = y + 1;
+
         // 主对角线化为1
         auto ratioY = A.Value(y, x);
         // y行第j个->第cols个
@@ -107,6 +97,14 @@ Vec SolveLinear(Mat A, Vec b) {
         }
     }
 
+    // 没有主元的行，左边全为0，右边也必须为0
+    for (auto row = RankA; row < rows; row++) {
+        if (!(std::abs(b[row]) < Config::Get().epsilon)) {
+            // 奇异，且系数矩阵及增广矩阵秩不相等->无解
+            throw MathError(ErrorType::ERROR_SINGULAR_MATRIX);
+        }
+    }
+
     bool bIndeterminateEquation = false; // 设置此变量是因为后面rows将=cols，标记以判断是否为不定方程组
 
     // 若为不定方程组，空缺行全填0继续运算
@@ -132,7 +130,7 @@ Vec SolveLinear(Mat A, Vec b) {
         ret[i] = b[i] - (vec.size() ? vec.sum() : 0);
     }
 
-    if (RankA < cols && RankA == RankAb) {
+    if (RankA < cols) {
         if (bIndeterminateEquation) {
             if (!Config::Get().allowIndeterminateEquation) {
                 throw MathError(ErrorType::ERROR_INDETERMINATE_EQUATION,
-- 
2.43.0


From 5274ce9cea6af44e7e833193e5894b0757ddd8c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:15 +0000
Subject: [PATCH 14/20] fix: invalid values broke SolveLinear and Armijo when
 they are not thrown

With throwOnInvalidValue off a NaN entry made GetMaxAbsRowIndex return an index
past the end (max() of the column is not found in it), and Armijo never ended.
---
 single/include/tomsolver/tomsolver.h | 4 ++--
 src/tomsolver/mat.cpp                | 2 +-
 src/tomsolver/nonlinear.cpp          | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/single/include/tomsolver/tomsolver.h b/single/include/tomsolver/tomsolver.h
index f208101..76a3b03 100644
--- a/single/include/tomsolver/tomsolver.h
+++ b/single/include/tomsolver/tomsolver.h
@@ -2313,7 +2313,7 @@ inline bool AllIsLessThan(const Mat &v1, const Mat &v2) noexcept {
 inline int GetMaxAbsRowIndex(const Mat &A, int rowStart, int rowEnd, int col) noexcept {
     std::valarray<double> temp =
         std::valarray<double>(A.Col(col)[std::slice(rowStart, rowEnd - rowStart + 1, 1)]).apply(std::abs);
-    auto ret = std::distance(std::begin(temp), std::find(std::begin(temp), std::end(temp), temp.max())) + rowStart;
+    auto ret = std::distance(std::begin(temp), std::max_element(std::begin(temp), std::end(temp))) + rowStart;
     return static_cast<int>(ret);
 }
 
@@ -3819,7 +3819,7 @@ inline double Armijo(const Vec &x, const Vec &d, std::function<Vec(Vec)> f, std:
 
         auto l = f(x_new).Norm2();
         auto r = (f(x).AsMat() + gamma * alpha * df(x).Transpose() * d).Norm2();
-        if (l <= r) // 检验条件
+        if (!(l > r)) // 检验条件。出现无效值(nan)时缩小alpha也不会改变，所以也要退出
         {
             break;
         } else
diff --git a/src/tomsolver/mat.cpp b/src/tomsolver/mat.cpp
index 82532af..621dab3 100644
--- a/src/tomsolver/mat.cpp
+++ b/src/tomsolver/mat.cpp
@@ -289,7 +289,7 @@ bool AllIsLessThan(const Mat &v1, const Mat &v2) noexcept {
 int GetMaxAbsRowIndex(const Mat &A, int rowStart, int rowEnd, int col) noexcept {
     std::valarray<double> temp =
         std::valarray<double>(A.Col(col)[std::slice(rowStart, rowEnd - rowStart + 1, 1)]).apply(std::abs);
-    auto ret = std::distance(std::begin(temp), std::find(std::begin(temp), std::end(temp), temp.max())) + rowStart;
+    auto ret = std::distance(std::begin(temp), std::max_element(std::begin(temp), std::end(temp))) + rowStart;
     return static_cast<int>(ret);
 }
 
diff --git a/src/tomsolver/nonlinear.cpp b/src/tomsolver/nonlinear.cpp
index 3943d94..2fe1681 100644
--- a/src/tomsolver/nonlinear.cpp
+++ b/src/tomsolver/nonlinear.cpp
@@ -23,7 +23,7 @@ double Armijo(const Vec &x, const Vec &d, std::function<Vec(Vec)> f, std::functi
 
         auto l = f(x_new).Norm2();
         auto r = (f(x).AsMat() + gamma * alpha * df(x).Transpose() * d).Norm2();
-        if (l <= r) // 检验条件
+        if (!(l > r)) // 检验条件。出现无效值(nan)时缩小alpha也不会改变，所以也要退出
         {
             break;
         } else
-- 
2.43.0


From 75e6077bee310a38a575dc9ff0c1f7d48a373944 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:13 +0000
Subject: [PATCH 15/20] fix: equations and tables without variables aborted

Solve of a constant equation (diff_machine and friends accept any expression)
hit the size assertions of Vec, Mat and SymMat. 0 = 0 has the empty solution,
any other constant is over-determined.
---
 single/include/tomsolver/tomsolver.h | 13 ++++++++-----
 src/tomsolver/mat.cpp                |  5 ++---
 src/tomsolver/nonlinear.cpp          |  5 +++++
 src/tomsolver/symmat.cpp             |  3 +--
 4 files changed, 16 insertions(+), 10 deletions(-)

diff --git a/single/include/tomsolver/tomsolver.h b/single/include/tomsolver/tomsolver.h
index 76a3b03..ce82fae 100644
--- a/single/include/tomsolver/tomsolver.h
+++ b/single/include/tomsolver/tomsolver.h
@@ -2038,8 +2038,8 @@ inline double Calc(MathOperator op, double v1, double v2) {
 namespace tomsolver {
 
 inline Mat::Mat(int rows, int cols, double initValue) noexcept : rows(rows), cols(cols), data(initValue, rows * cols) {
-    assert(rows > 0);
-    assert(cols > 0);
+    assert(rows >= 0);
+    assert(cols >= 0);
 }
 
 inline Mat::Mat(std::initializer_list<std::initializer_list<double>> init) noexcept {
@@ -2146,7 +2146,6 @@ inline int Mat::Cols() const noexcept {
 }
 
 inline Vec Mat::ToVec() const {
-    assert(rows > 0);
     if (cols != 1) {
         throw std::runtime_error("Mat::ToVec fail. rows is not one");
     }
@@ -3960,6 +3959,11 @@ inline VarsTable SolveByLM(const SymVec &equations, const VarsTable &varsTable)
             break;
         }
 
+        // 没有未知量，而F不为0
+        if (n == 0) {
+            throw MathError(ErrorType::ERROR_OVER_DETERMINED_EQUATIONS);
+        }
+
         Vec FNew(n);   // 下一轮F
         Vec deltaq(n); // Δq
         while (1) {
@@ -4479,7 +4483,7 @@ namespace tomsolver {
 using DataType = std::valarray<Node>;
 
 inline SymMat::SymMat(int rows, int cols) noexcept : rows(rows), cols(cols) {
-    assert(rows > 0 && cols > 0);
+    assert(rows >= 0 && cols >= 0);
     data.reset(new DataType(rows * cols));
 }
 
@@ -4527,7 +4531,6 @@ inline int SymMat::Cols() const noexcept {
 }
 
 inline SymVec SymMat::ToSymVec() const {
-    assert(rows > 0);
     if (cols != 1) {
         throw std::runtime_error("SymMat::ToSymVec fail. rows is not one");
     }
diff --git a/src/tomsolver/mat.cpp b/src/tomsolver/mat.cpp
index 621dab3..6c48494 100644
--- a/src/tomsolver/mat.cpp
+++ b/src/tomsolver/mat.cpp
@@ -15,8 +15,8 @@
 namespace tomsolver {
 
 Mat::Mat(int rows, int cols, double initValue) noexcept : rows(rows), cols(cols), data(initValue, rows * cols) {
-    assert(rows > 0);
-    assert(cols > 0);
+    assert(rows >= 0);
+    assert(cols >= 0);
 }
 
 Mat::Mat(std::initializer_list<std::initializer_list<double>> init) noexcept {
@@ -122,7 +122,6 @@ int Mat::Cols() const noexcept {
 }
 
 Vec Mat::ToVec() const {
-    assert(rows > 0);
     if (cols != 1) {
         throw std::runtime_error("Mat::ToVec fail. rows is not one");
     }
diff --git a/src/tomsolver/nonlinear.cpp b/src/tomsolver/nonlinear.cpp
index 2fe1681..c7860fd 100644
--- a/src/tomsolver/nonlinear.cpp
+++ b/src/tomsolver/nonlinear.cpp
@@ -164,6 +164,11 @@ VarsTable SolveByLM(const SymVec &equations, const VarsTable &varsTable) {
             break;
         }
 
+        // 没有未知量，而F不为0
+        if (n == 0) {
+            throw MathError(ErrorType::ERROR_OVER_DETERMINED_EQUATIONS);
+        }
+
         Vec FNew(n);   // 下一轮F
         Vec deltaq(n); // Δq
         while (1) {
diff --git a/src/tomsolver/symmat.cpp b/src/tomsolver/symmat.cpp
index e9750d9..2af5bf5 100644
--- a/src/tomsolver/symmat.cpp
+++ b/src/tomsolver/symmat.cpp
@@ -16,7 +16,7 @@ namespace tomsolver {
 using DataType = std::valarray<Node>;
 
 SymMat::SymMat(int rows, int cols) noexcept : rows(rows), cols(cols) {
-    assert(rows > 0 && cols > 0);
+    assert(rows >= 0 && cols >= 0);
     data.reset(new DataType(rows * cols));
 }
 
@@ -64,7 +64,6 @@ int SymMat::Cols() const noexcept {
 }
 
 SymVec SymMat::ToSymVec() const {
-    assert(rows > 0);
     if (cols != 1) {
         throw std::runtime_error("SymMat::ToSymVec fail. rows is not one");
     }
-- 
2.43.0


From 0b0885075ddc0589e0bbbb40eba43621758f552c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:22 +0000
Subject: [PATCH 16/20] fix: SolveByLM aborted on systems that are not square

The damping matrix and the line search assume a square Jacobian. Report
over-determined systems, and indeterminate ones unless they are allowed, as
SolveByNewtonRaphson does; pad an allowed one with 0=0.
---
 single/include/tomsolver/tomsolver.h | 19 +++++++++++++++----
 src/tomsolver/nonlinear.cpp          | 20 ++++++++++++++++----
 2 files changed, 31 insertions(+), 8 deletions(-)

diff --git a/single/include/tomsolver/tomsolver.h b/single/include/tomsolver/tomsolver.h
index ce82fae..f39e881 100644
--- a/single/include/tomsolver/tomsolver.h
+++ b/single/include/tomsolver/tomsolver.h
@@ -3934,12 +3934,18 @@ inline VarsTable SolveByNewtonRaphson(const SymVec &equations, const VarsTable &
     return table;
 }
 
-inline VarsTable SolveByLM(const SymVec &equations, const VarsTable &varsTable) {
+inline VarsTable SolveByLM(const SymVec &inputEquations, const VarsTable &varsTable) {
     int it = 0; // 迭代计数
     VarsTable table = varsTable;
     int n = table.VarNums(); // 未知量数量
     Vec q = table.Values();  // x向量
-    internal::PrintSolveStartInfo(equations, varsTable);
+    internal::PrintSolveStartInfo(inputEquations, varsTable);
+
+    // 方程组补齐为方阵。不定方程组缺少的等式补为0=0
+    SymVec equations(std::max(inputEquations.Rows(), n));
+    for (int i = 0; i < equations.Rows(); ++i) {
+        equations[i] = i < inputEquations.Rows() ? Clone(inputEquations[i]) : Num(0);
+    }
 
     SymMat JaEqs = Jacobian(equations, table.Vars());
     internal::PrintJacobian(JaEqs);
@@ -3959,11 +3965,16 @@ inline VarsTable SolveByLM(const SymVec &equations, const VarsTable &varsTable)
             break;
         }
 
-        // 没有未知量，而F不为0
-        if (n == 0) {
+        // 过定义方程组
+        if (inputEquations.Rows() > n) {
             throw MathError(ErrorType::ERROR_OVER_DETERMINED_EQUATIONS);
         }
 
+        // 不定方程组，只有在允许时才返回特解
+        if (inputEquations.Rows() < n && !Config::Get().allowIndeterminateEquation) {
+            throw MathError(ErrorType::ERROR_INDETERMINATE_EQUATION);
+        }
+
         Vec FNew(n);   // 下一轮F
         Vec deltaq(n); // Δq
         while (1) {
diff --git a/src/tomsolver/nonlinear.cpp b/src/tomsolver/nonlinear.cpp
index c7860fd..8ae4919 100644
--- a/src/tomsolver/nonlinear.cpp
+++ b/src/tomsolver/nonlinear.cpp
@@ -4,6 +4,7 @@
 #include "error_type.h"
 #include "linear.h"
 
+#include <algorithm>
 #include <cassert>
 #include <iostream>
 
@@ -139,12 +140,18 @@ VarsTable SolveByNewtonRaphson(const SymVec &equations, const VarsTable &varsTab
     return table;
 }
 
-VarsTable SolveByLM(const SymVec &equations, const VarsTable &varsTable) {
+VarsTable SolveByLM(const SymVec &inputEquations, const VarsTable &varsTable) {
     int it = 0; // 迭代计数
     VarsTable table = varsTable;
     int n = table.VarNums(); // 未知量数量
     Vec q = table.Values();  // x向量
-    internal::PrintSolveStartInfo(equations, varsTable);
+    internal::PrintSolveStartInfo(inputEquations, varsTable);
+
+    // 方程组补齐为方阵。不定方程组缺少的等式补为0=0
+    SymVec equations(std::max(inputEquations.Rows(), n));
+    for (int i = 0; i < equations.Rows(); ++i) {
+        equations[i] = i < inputEquations.Rows() ? Clone(inputEquations[i]) : Num(0);
+    }
 
     SymMat JaEqs = Jacobian(equations, table.Vars());
     internal::PrintJacobian(JaEqs);
@@ -164,11 +171,16 @@ VarsTable SolveByLM(const SymVec &equations, const VarsTable &varsTable) {
             break;
         }
 
-        // 没有未知量，而F不为0
-        if (n == 0) {
+        // 过定义方程组
+        if (inputEquations.Rows() > n) {
             throw MathError(ErrorType::ERROR_OVER_DETERMINED_EQUATIONS);
         }
 
+        // 不定方程组，只有在允许时才返回特解
+        if (inputEquations.Rows() < n && !Config::Get().allowIndeterminateEquation) {
+            throw MathError(ErrorType::ERROR_INDETERMINATE_EQUATION);
+        }
+
         Vec FNew(n);   // 下一轮F
         Vec deltaq(n); // Δq
         while (1) {
-- 
2.43.0


From 58bae53b7ce49638387074ec4b1b66b0f5218dcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:40 +0000
Subject: [PATCH 17/20] fix: Diff of constant subexpressions raised spurious
 errors

The formulas were applied to operands that are constant but not yet a number:
d/dx (x + sqrt(1-1)) divided by zero instead of giving 1. Fold constants first.
---
 single/include/tomsolver/tomsolver.h | 10 ++++++++--
 src/tomsolver/diff.cpp               |  4 ++++
 src/tomsolver/diff.h                 |  4 ++--
 3 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/single/include/tomsolver/tomsolver.h b/single/include/tomsolver/tomsolver.h
index f39e881..cabf0a8 100644
--- a/single/include/tomsolver/tomsolver.h
+++ b/single/include/tomsolver/tomsolver.h
@@ -2706,13 +2706,15 @@ namespace tomsolver {
 
 /**
  * node对varname求导。在node包含多个变量时，是对varname求偏导。
- * @exception runtime_error 如果表达式内包含AND(&) OR(|) MOD(%)这类不能求导的运算符，则抛出异常
+ * @exception runtime_error 如果表达式内包含AND(&) OR(|)
+ * MOD(%)这类不能求导的运算符，则抛出异常（全为数字的子表达式会先被计算为数字）
  */
 inline Node Diff(const Node &node, const std::string &varname, int i = 1);
 
 /**
  * node对varname求导。在node包含多个变量时，是对varname求偏导。
- * @exception runtime_error 如果表达式内包含AND(&) OR(|) MOD(%)这类不能求导的运算符，则抛出异常
+ * @exception runtime_error 如果表达式内包含AND(&) OR(|)
+ * MOD(%)这类不能求导的运算符，则抛出异常（全为数字的子表达式会先被计算为数字）
  */
 inline Node Diff(Node &&node, const std::string &varname, int i = 1);
 
@@ -4101,6 +4103,10 @@ public:
     };
 
     static void DiffOnce(Node &root, const std::string &varname) {
+        // 先把常数子表达式合并为数字，因为对数字求导总是0，而对常数子表达式套用公式可能产生无效值。
+        // 例如： sqrt(1-1)' = 0，而不是 1/(2*sqrt(1-1)) * (1-1)'
+        Simplify(root);
+
         std::queue<DiffNode> q;
 
         if (root->type == NodeType::OPERATOR) {
diff --git a/src/tomsolver/diff.cpp b/src/tomsolver/diff.cpp
index b3ef1bf..5a8a65a 100644
--- a/src/tomsolver/diff.cpp
+++ b/src/tomsolver/diff.cpp
@@ -20,6 +20,10 @@ public:
     };
 
     static void DiffOnce(Node &root, const std::string &varname) {
+        // 先把常数子表达式合并为数字，因为对数字求导总是0，而对常数子表达式套用公式可能产生无效值。
+        // 例如： sqrt(1-1)' = 0，而不是 1/(2*sqrt(1-1)) * (1-1)'
+        Simplify(root);
+
         std::queue<DiffNode> q;
 
         if (root->type == NodeType::OPERATOR) {
diff --git a/src/tomsolver/diff.h b/src/tomsolver/diff.h
index c3ec5c0..6ac76dd 100644
--- a/src/tomsolver/diff.h
+++ b/src/tomsolver/diff.h
@@ -6,13 +6,13 @@ namespace tomsolver {
 
 /**
  * node对varname求导。在node包含多个变量时，是对varname求偏导。
- * @exception runtime_error 如果表达式内包含AND(&) OR(|) MOD(%)这类不能求导的运算符，则抛出异常
+ * @exception runtime_error 如果表达式内包含AND(&) OR(|) MOD(%)这类不能求导的运算符，则抛出异常（全为数字的子表达式会先被计算为数字）
  */
 Node Diff(const Node &node, const std::string &varname, int i = 1);
 
 /**
  * node对varname求导。在node包含多个变量时，是对varname求偏导。
- * @exception runtime_error 如果表达式内包含AND(&) OR(|) MOD(%)这类不能求导的运算符，则抛出异常
+ * @exception runtime_error 如果表达式内包含AND(&) OR(|) MOD(%)这类不能求导的运算符，则抛出异常（全为数字的子表达式会先被计算为数字）
  */
 Node Diff(Node &&node, const std::string &varname, int i = 1);
 
-- 
2.43.0


From 559ee716b121b4760e06dc110a08f14163b703ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:09 +0000
Subject: [PATCH 18/20] fix: error report for empty input quoted "empty input"
 as the input

---
 single/include/tomsolver/tomsolver.h | 2 +-
 src/tomsolver/parse.cpp              | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/single/include/tomsolver/tomsolver.h b/single/include/tomsolver/tomsolver.h
index cabf0a8..134023c 100644
--- a/single/include/tomsolver/tomsolver.h
+++ b/single/include/tomsolver/tomsolver.h
@@ -3484,7 +3484,7 @@ namespace internal {
 inline std::deque<Token> ParseFunctions::ParseToTokens(StringView content) {
 
     if (content.empty()) {
-        throw SingleParseError(0, 0, "empty input", content);
+        throw SingleParseError(0, 0, content, "empty input");
     }
 
     auto iter = content.begin(), nameIter = iter;
diff --git a/src/tomsolver/parse.cpp b/src/tomsolver/parse.cpp
index e09bbaa..e6d6236 100644
--- a/src/tomsolver/parse.cpp
+++ b/src/tomsolver/parse.cpp
@@ -160,7 +160,7 @@ namespace internal {
 std::deque<Token> ParseFunctions::ParseToTokens(StringView content) {
 
     if (content.empty()) {
-        throw SingleParseError(0, 0, "empty input", content);
+        throw SingleParseError(0, 0, content, "empty input");
     }
 
     auto iter = content.begin(), nameIter = iter;
-- 
2.43.0


From 46b712c6a21ff9818dce61d0e91c6efff8cd8b71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:07 +0000
Subject: [PATCH 19/20] fix: numbers below the smallest normal double are read

---
 single/include/tomsolver/tomsolver.h | 19 ++++++++++---------
 src/tomsolver/parse.cpp              | 20 +++++++++++---------
 2 files changed, 21 insertions(+), 18 deletions(-)

diff --git a/single/include/tomsolver/tomsolver.h b/single/include/tomsolver/tomsolver.h
index 134023c..e921943 100644
--- a/single/include/tomsolver/tomsolver.h
+++ b/single/include/tomsolver/tomsolver.h
@@ -8,6 +8,7 @@
 #include <clocale>
 #include <cmath>
 #include <cstdio>
+#include <cstdlib>
 #include <cstring>
 #include <forward_list>
 #include <functional>
@@ -3497,15 +3498,15 @@ inline std::deque<Token> ParseFunctions::ParseToTokens(StringView content) {
             auto &token = ret.back();
 
             auto expStr = exp.toString();
-            // 检验是否为浮点数
-            try {
-                std::size_t sz;
-                auto d = std::stod(expStr, &sz);
-                if (sz == expStr.size()) {
-                    token.node = Num(d);
-                    return;
-                }
-            } catch (...) {}
+            // 检验是否为浮点数。下溢的数（例如1e-310）是有效的数，上溢的不是
+            auto expBegin = expStr.c_str();
+            char *expEnd = nullptr;
+            auto d = std::strtod(expBegin, &expEnd);
+            auto overflow = std::isinf(d) && std::any_of(expStr.begin(), expStr.end(), IsDigit);
+            if (expEnd == expBegin + expStr.size() && !overflow) {
+                token.node = Num(d);
+                return;
+            }
 
             auto op = Str2Function(exp);
             if (op != MathOperator::MATH_NULL) {
diff --git a/src/tomsolver/parse.cpp b/src/tomsolver/parse.cpp
index e6d6236..fb0b919 100644
--- a/src/tomsolver/parse.cpp
+++ b/src/tomsolver/parse.cpp
@@ -6,6 +6,8 @@
 #include <algorithm>
 #include <cassert>
 #include <cctype>
+#include <cmath>
+#include <cstdlib>
 #include <functional>
 #include <iterator>
 #include <sstream>
@@ -173,15 +175,15 @@ std::deque<Token> ParseFunctions::ParseToTokens(StringView content) {
             auto &token = ret.back();
 
             auto expStr = exp.toString();
-            // 检验是否为浮点数
-            try {
-                std::size_t sz;
-                auto d = std::stod(expStr, &sz);
-                if (sz == expStr.size()) {
-                    token.node = Num(d);
-                    return;
-                }
-            } catch (...) {}
+            // 检验是否为浮点数。下溢的数（例如1e-310）是有效的数，上溢的不是
+            auto expBegin = expStr.c_str();
+            char *expEnd = nullptr;
+            auto d = std::strtod(expBegin, &expEnd);
+            auto overflow = std::isinf(d) && std::any_of(expStr.begin(), expStr.end(), IsDigit);
+            if (expEnd == expBegin + expStr.size() && !overflow) {
+                token.node = Num(d);
+                return;
+            }
 
             auto op = Str2Function(exp);
             if (op != MathOperator::MATH_NULL) {
-- 
2.43.0


From dd43407ff6d74a148c2959510d294da40aab7f4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:36:38 +0000
Subject: [PATCH 20/20] fix: linear solver ignored entries below epsilon in the
 elimination

---
 single/include/tomsolver/tomsolver.h | 2 +-
 src/tomsolver/linear.cpp             | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/single/include/tomsolver/tomsolver.h b/single/include/tomsolver/tomsolver.h
index e921943..7f83f4e 100644
--- a/single/include/tomsolver/tomsolver.h
+++ b/single/include/tomsolver/tomsolver.h
@@ -2588,7 +2588,7 @@ inline Vec SolveLinear(Mat A, Vec b) {
         for (auto row = y + 1; row < rows; row++) // 下1行->最后1行
         {
             auto ratioRow = A.Value(row, x);
-            if (std::abs(ratioRow) >= Config::Get().epsilon) {
+            if (ratioRow != 0) {
                 A.Row(row, x) -= rowY * ratioRow;
                 b[row] -= b[y] * ratioRow;
             }
diff --git a/src/tomsolver/linear.cpp b/src/tomsolver/linear.cpp
index af21d98..ed4f415 100644
--- a/src/tomsolver/linear.cpp
+++ b/src/tomsolver/linear.cpp
@@ -90,7 +90,7 @@ Vec SolveLinear(Mat A, Vec b) {
         for (auto row = y + 1; row < rows; row++) // 下1行->最后1行
         {
             auto ratioRow = A.Value(row, x);
-            if (std::abs(ratioRow) >= Config::Get().epsilon) {
+            if (ratioRow != 0) {
                 A.Row(row, x) -= rowY * ratioRow;
                 b[row] -= b[y] * ratioRow;
             }
-- 
2.43.0

