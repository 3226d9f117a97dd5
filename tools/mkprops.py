#!/usr/bin/env python3
"""Writes properties.jsonl (run by hand; the output is committed)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=["src/tomsolver/"+f for f in files] + ["single/include/tomsolver/tomsolver.h"],
                               state=state or [],
                               mechanism=[dict(name=a, where="src/tomsolver/"+b) for a, b in mech],
                               observe_at=observe or [], hook_needed=None)))

p("C01", "Accepted text denotes the expression the documented grammar assigns to it",
  "Every well-formed expression text is accepted by the parser and denotes exactly the expression given by the documented grammar: operator precedence (functions, then sign, then %, then & and |, then ^, then * and /, then + and -), right associativity of ^ and left associativity of the other binary operators, parentheses, sign versus binary use of + and -, prefix function application with or without parentheses, both spellings of the inverse functions, and insignificant white space of every kind. Evaluating the parsed expression gives the value of the text under that grammar, and it mentions exactly the variables the text mentions.",
  ["inputs"], "all token sequences of the grammar (exhaustively to a length, randomly beyond), all literal and identifier spellings, all white space",
  "The parse tests sample a few dozen fixed strings; precedence and associativity of operator pairs and triples, prefix chains and odd spacing are not covered.",
  ["parse.cpp", "math_operator.cpp"], [("tokenizer with one-character operators and names", "parse.cpp:ParseToTokens"), ("shunting-yard by rank and associativity", "parse.cpp:InOrderToPostOrder"), ("tree construction from reverse Polish order", "parse.cpp:BuildExpressionTree"), ("rank and associativity tables", "math_operator.cpp:Rank, IsLeft2Right")], ["Parse", "_f literal"])
p("C02", "Malformed text is always rejected with a position inside the text",
  "Text that is not a well-formed expression (missing operand or operator, unbalanced or empty parentheses, adjacent operands, illegal or badly formed names and numbers, empty or blank input) is rejected with a parse exception and never accepted, crashes or hangs. When the exception reports a position, that position lies within the input, and for an illegal name, a stray closing parenthesis or an unclosed parenthesis it is the position of the offending token.",
  ["inputs"], "all token sequences that are not in the grammar (exhaustively to a length), random and mutated byte strings, very long names and deep nesting",
  "The tests try a handful of bad strings; several others used to be accepted or to pop an empty stack.",
  ["parse.cpp", "parse.h"], [("operand/operator alternation check", "parse.cpp:InOrderToPostOrder"), ("parenthesis balance", "parse.cpp:InOrderToPostOrder"), ("leftover operands become a multi error", "parse.cpp:BuildExpressionTree"), ("name check", "node.cpp:VarNameIsLegal")], ["Parse", "SingleParseError::GetPos", "what()"])
p("C03", "Printed expressions read back as the same function",
  "For every expression that can be built through the public interface or results from the library's own operations, its printed text is accepted by the parser and the parsed expression evaluates to the same values (up to floating-point rounding and the printed precision of numbers) and has the same variables. Printing does not change the expression and is deterministic.",
  ["inputs"], "all expression trees (all operator pairs and triples exhaustively, larger ones randomly) with positive, negative, tiny and huge literals",
  "ToString tests pin some strings; parentheses matter for every parent/child operator pair on both sides and for negative literals, which is a product the tests do not cover.",
  ["node.cpp", "parse.cpp", "math_operator.cpp"], [("parenthesis rule by rank and associativity", "node.cpp:ToStringNonRecursively"), ("associativity table", "math_operator.cpp:InAssociativeLaws")], ["Node::ToString", "operator<<", "Parse"])
p("C04", "Numbers are printed and read faithfully",
  "A number's printed text reads back as a value within 1e-16 absolute or a relative error of one part in 10^15, whichever is larger, with the right sign, has no superfluous trailing zeros and no trailing decimal point, and is 0 only for values whose magnitude that precision cannot show; integers up to 2^53 are printed as plain integers. A decimal literal (with optional fraction and optional signed exponent) in an expression denotes the nearest double.",
  ["inputs"], "all finite doubles by class (integers, halves, subnormal to 1e300, around the notation switches 1e-16 and 1e16, random bit patterns) and all decimal literal shapes",
  "The tests print about ten numbers.",
  ["config.cpp", "parse.cpp"], [("fixed or exponent notation by magnitude, zero trimming", "config.cpp:ToString"), ("stod on the whole token, exponent sign inside a token", "parse.cpp:ParseToTokens")], ["ToString(double)", "Parse"])
p("C05", "Evaluation computes the mathematical value of the tree",
  "The numeric value of a variable-free expression is the value of its operator tree: every operator and function yields its standard mathematical meaning (radians, natural/base-2/base-10 logarithm, integer %, & and | on truncated operands), operands are never exchanged, and the result is accurate to floating-point rounding. Evaluating into place replaces the expression by that number and nothing else, plain evaluation leaves the expression unchanged.",
  ["inputs"], "all operators on grids of operand values and all shapes of operator trees (exhaustive pairs, random larger trees)",
  "Tests evaluate a few fixed expressions per operator; operand order, operator confusion and stack discipline on other tree shapes are unsampled.",
  ["math_operator.cpp", "node.cpp"], [("one-operator arithmetic", "math_operator.cpp:Calc"), ("post-order evaluation with a value stack", "node.cpp:VpaNonRecursively"), ("in-place calculation", "node.cpp:NodeImpl::Calc")], ["Node::Vpa", "Node::Calc", "SymMat::Calc"])
p("C06", "Invalid values and unbound variables are reported exactly when they occur",
  "With the default policy an evaluation raises the invalid-number error if and only if some operator in the tree produces an infinity or not-a-number (domain error, division or remainder by zero, overflow); with the policy switched off no such error is raised and the IEEE result is returned. Evaluating an expression that still contains a variable raises an error, never a number; after any of these errors the expression is unchanged and usable.",
  ["inputs", "histories", "configurations"], "all trees with operands inside, on and outside the domain of each operator, policy on and off and switched between calls",
  "The tests check nine expressions with the policy on and off; poles and domain borders in inner nodes, and state after the error, are unsampled.",
  ["math_operator.cpp", "node.cpp", "config.h"], [("check after each operator", "math_operator.cpp:Calc"), ("throw on variable", "node.cpp:VpaNonRecursively"), ("Config::throwOnInvalidValue", "config.h")], ["Node::Vpa", "Node::Calc", "MathError::GetErrorType"])
p("C07", "A symbolic derivative is the partial derivative of its argument",
  "The derivative of an expression with respect to a variable evaluates, at every point where the expression is differentiable and its factors are defined, to the mathematical partial derivative with respect to that variable (others held constant). It is zero for a variable that does not occur, and mentions no variable that the expression does not mention.",
  ["inputs"], "all operators with arguments constant, the variable, another variable or compound; operator pairs exhaustively, larger trees randomly; several points and variables",
  "The derivative tests compare about forty fixed results; a wrong rule for an operator/argument-shape combination (for instance exp of another variable) passes them.",
  ["diff.cpp", "simplify.cpp"], [("derivative rule per operator, pending subtrees in a queue", "diff.cpp:DiffOnceOperator"), ("result folding", "simplify.cpp:SimplifySingleNode")], ["Diff"])
p("C08", "Higher-order and mixed derivatives compose",
  "Differentiating k times in one call gives the k-th partial derivative; mixed derivatives taken in any order agree in value; the result of differentiation is an ordinary expression on which every other operation works. This holds for copied and for moved arguments.",
  ["inputs", "histories"], "orders 1 to 4, all pairs of variables, composed with substitution, arithmetic, printing and re-parsing",
  "One or two tests use the order argument.",
  ["diff.cpp"], [("order loop", "diff.cpp:Diff")], ["Diff(node, var, k)"])
p("C09", "Non-differentiable operators are refused and arguments are left intact",
  "Differentiating an expression in which %, & or | is applied to something containing a variable raises an exception (never a wrong derivative, an abort or a hang), in single derivatives and in Jacobians alike. An expression passed as a constant argument to differentiation, substitution, cloning, evaluation, printing or any arithmetic operator is not changed by the call, whether the call returns or raises.",
  ["inputs", "histories"], "all positions of the three operators in random trees; every operation taking a constant expression",
  "No test differentiates such an operator; argument preservation is checked for a few calls.",
  ["diff.cpp", "symmat.cpp", "subs.cpp"], [("throw for AND/OR/MOD", "diff.cpp:DiffOnceOperator"), ("clone before change", "diff.cpp:Diff, subs.cpp:Subs")], ["Diff", "Jacobian"])
p("C10", "Simplification preserves value",
  "Simplifying an expression never changes its value at any point where the original is defined (0 to the power 0 counts as undefined), introduces no variable, and raises an error only if a constant part of the expression is itself invalid. A variable-free valid expression simplifies to its single number; neutral and absorbing operands (plus/minus 0, times 0 or 1, divided by 1, power 1) are removed; simplifying twice changes nothing more.",
  ["inputs"], "all operators with operands 0, 1, -1, other literals and variables on either side, nested; random trees",
  "The test simplifies a handful of expressions.",
  ["simplify.cpp"], [("post-order rewriting of each operator node", "simplify.cpp:SimplifySingleNode")], ["Simplify", "Diff"])
p("C11", "Substitution is simultaneous, complete and capture-free",
  "Substituting expressions or numbers for variables replaces every occurrence of exactly the named variables at the same time: replacement expressions are not themselves substituted into, other variables are untouched, and the value afterwards is the value of the original under the substituted environment. All forms (single, list with vector, map to expressions, map to numbers, variable table, matrix) agree, and replacement expressions given as constants are unchanged and not shared.",
  ["inputs", "histories"], "all trees, simultaneous swaps (x->y, y->x), self-containing replacements, names that are prefixes of one another, absent names, each overload with copied and moved argument",
  "The tests substitute into few expressions and seldom swap or reuse.",
  ["subs.cpp", "symmat.cpp"], [("one traversal with a dictionary, no descent into replacements", "subs.cpp:SubsInner")], ["Subs", "SymMat::Subs"])
p("C12", "The variables reported are exactly those in the expression",
  "The set of variable names reported for an expression, vector or matrix is exactly the set of variables that occur in it - each once, none missing, none extra - after any history of construction, parsing, substitution and assignment. Exactly the names made of ASCII letters, digits and underscores that do not start with a digit are accepted as variable names.",
  ["inputs", "histories"], "all trees and positions of variables; all short names over an alphabet of legal and illegal characters",
  "Tests ask for the variables of a few expressions and for the legality of a few names.",
  ["node.cpp", "symmat.cpp"], [("traversal of every node", "node.cpp:GetAllVarNames"), ("name check", "node.cpp:VarNameIsLegal, Var")], ["GetAllVarNames", "VarNameIsLegal", "Var"])
p("C13", "A Jacobian holds each partial derivative at its place",
  "The Jacobian of m equations for n given variables has m rows and n columns, and its entry (i, j) is the partial derivative of equation i with respect to the j-th given variable, in the given order, for every m and n including variables that do not occur. The equations are unchanged.",
  ["inputs"], "shapes 1x1 to 4x4 including non-square, random equations and variable orders",
  "Jacobians are tested on two or three systems, mostly square.",
  ["symmat.cpp", "diff.cpp"], [("row-major fill of derivatives", "symmat.cpp:Jacobian")], ["Jacobian"])
p("C14", "Expressions have value semantics under every history",
  "Along every sequence of constructing, copying, moving, compound-assigning (also with itself), substituting, differentiating, simplifying and evaluating expressions held in variables, each variable holds exactly the expression the sequence of operations assigns to it: copies are independent, operands given as lvalues keep their value, operands given as rvalues are emptied, and the internal links of every held expression stay consistent. No sequence crashes, leaks into another variable or corrupts one.",
  ["histories"], "operation histories over several variables with all lvalue/rvalue and aliasing combinations",
  "Unit tests are short straight-line scenarios; aliasing (a += a, a = a*a, substituting an expression into itself) and long histories are not covered.",
  ["node.h", "node.cpp", "functions.h"], [("copy or move of each operand by value category", "node.h:BinaryOperator, UnaryOperator; node.cpp:CopyOrMoveTo"), ("parent links re-established on copy and move", "node.cpp:NodeImpl::operator=, CloneNonRecursively")], ["operators", "Clone", "Move", "CheckParent"],
  [dict(name="parent", meaning="link from each node to its parent", where="node.h:NodeImpl")])
p("C15", "Equality of expressions is structural identity",
  "Two expressions compare equal if and only if they have the same tree: same operators, same numbers, same variable names, same operand order. Equality is an equivalence relation, every clone equals its original, a change of any single operator, number, name or operand order anywhere makes them unequal, and matrix equality is the elementwise version including shape.",
  ["inputs"], "pairs of trees that are identical, differ in one place, or differ in shape; exhaustive small trees pairwise",
  "Equal is tested on few pairs, none differing deep inside.",
  ["node.cpp", "symmat.cpp"], [("pairwise traversal comparing type, operator, value, name, children", "node.cpp:NodeImpl::Equal")], ["Node::Equal", "SymMat::operator=="])
p("C16", "Deep and large expressions are processed without exhausting the stack",
  "Expressions of any depth that memory can hold (hundreds of thousands of nested operators, parentheses or signs; left-deep, right-deep and unary chains) can be built, parsed, printed, copied, compared, evaluated, searched for variables, substituted, simplified, differentiated and destroyed without overflowing the call stack, in time roughly linear in their size where the result is, and with the same results as for small ones.",
  ["inputs"], "chain shapes times operations at depths up to 10^5-10^6, checked against closed forms from the small-case specification",
  "Three or four tests cover some operations on one shape.",
  ["node.cpp", "subs.cpp", "diff.cpp", "simplify.cpp", "parse.cpp"], [("explicit stacks instead of recursion", "node.cpp, subs.cpp, simplify.cpp, diff.cpp, parse.cpp"), ("iterative destruction", "node.cpp:NodeImpl::Release")], ["all expression operations"])
p("C17", "Linear systems are classified correctly",
  "The linear solver returns a vector exactly when it may: a square system with a unique solution is solved; a singular inconsistent system raises the singular-matrix error and a singular consistent square one the infinite-solutions error; more equations than unknowns raise the over-determined error; fewer equations raise the indeterminate error unless indeterminate systems are allowed, and the singular error if they contradict each other. Zero pivots, skipped columns, and row order make no difference.",
  ["inputs", "configurations"], "all small integer matrices to a bound (2x2, 2x3, 3x3 over small entries), random ones up to 6x6 with planted rank deficiency, both settings of the policy",
  "One test solves one regular 4x4 system.",
  ["linear.cpp", "mat.cpp"], [("column-pivot elimination, pivot count", "linear.cpp:SolveLinear"), ("pivot search", "mat.cpp:GetMaxAbsRowIndex")], ["SolveLinear"])
p("C18", "A vector returned by the linear solver satisfies the system",
  "Whenever the linear solver returns a vector, multiplying the matrix with it reproduces the right-hand side up to rounding; for a non-singular square system it is the unique solution, and for an allowed indeterminate system a particular solution of the right length. The caller's matrix and right-hand side are unchanged.",
  ["inputs"], "regular and rank-deficient systems up to 8 unknowns with permuted rows, zero pivots, badly scaled and non-integer entries",
  "One test solves one system.",
  ["linear.cpp", "mat.cpp"], [("back substitution, reordering of rows for indeterminate systems", "linear.cpp:SolveLinear")], ["SolveLinear"])
p("C19", "Numeric matrices and vectors obey matrix algebra",
  "Sums, differences, negation, scalar and matrix products, transposition, dot products, elementwise products and quotients, row and column views and swaps, resizing, norms, minima, comparisons and zero tests on numeric matrices and vectors give the mathematical result for all shapes, without changing their operands, and out-of-shape conversion to a vector is refused. Comparison with a number or matrix holds exactly when all entries agree within the configured tolerance.",
  ["inputs", "configurations"], "all shapes up to 5x5 with random integer and real entries, all operations, tolerances",
  "Matrix tests use one or two fixed shapes per operation.",
  ["mat.cpp", "mat.h"], [("valarray slices in row-major order", "mat.cpp")], ["Mat, Vec and their free functions"])
p("C20", "Determinant, inverse and definiteness are mathematically right",
  "The determinant of every square matrix is its mathematical determinant; the inverse times the matrix is the identity, and inversion is refused with the singular-matrix error exactly when the determinant vanishes within the configured tolerance; the adjoint satisfies A*adj(A) = det(A)*I. A matrix is reported positive definite exactly when all its leading principal minors are positive.",
  ["inputs"], "all small integer matrices up to 3x3 over a small range, random ones to 6x6, singular ones, symmetric ones",
  "Tests invert and expand two or three fixed matrices.",
  ["mat.cpp"], [("Laplace expansion and cofactor slices", "mat.cpp:Det, GetCofactor"), ("adjoint over determinant", "mat.cpp:Inverse, Adjoint"), ("leading minors", "mat.cpp:PositiveDetermine")], ["Det", "Inverse", "Adjoint", "PositiveDetermine"])
p("C21", "Symbolic matrix operations commute with evaluation",
  "Evaluating the difference or product of symbolic matrices, a substitution into one, a copy, or a conversion between symbolic and numeric matrices and vectors gives the same numbers as performing the operation on the evaluated matrices, for all compatible shapes; products of incompatible shapes and conversion of a matrix with unevaluated entries or more than one column are refused with an error. Operands are unchanged and copies are independent.",
  ["inputs", "histories"], "shapes up to 4x4, entries random expressions, operation sequences",
  "A few fixed shapes are tested.",
  ["symmat.cpp", "symmat.h"], [("row-major array of expressions", "symmat.cpp")], ["SymMat", "SymVec"])
p("C22", "A solution returned by the nonlinear solver satisfies every equation",
  "Whenever solving a system returns, every equation evaluated at the returned values is smaller in magnitude than the configured tolerance, and the returned table has exactly the unknowns of the system (those of the given table, or those occurring in the equations), each with a finite value. The input equations and table are unchanged.",
  ["inputs", "configurations"], "polynomial, trigonometric, exponential and linear systems of 1 to 4 unknowns, both methods, tolerances from 1e-3 to 1e-12, random starts, solvable or not",
  "Tests solve about ten systems and compare with one known root.",
  ["nonlinear.cpp", "linear.cpp", "symmat.cpp", "vars_table.cpp"], [("residual test before return", "nonlinear.cpp:SolveByNewtonRaphson, SolveByLM"), ("comparison with tolerance", "mat.cpp:Mat::operator==(double)")], ["Solve", "SolveByNewtonRaphson", "SolveByLM"])
p("C23", "Each method follows its iteration from the given initial values",
  "Newton-Raphson returns the point its iteration x - J(x)^-1 F(x) reaches from the given (or configured default) initial values, and the Levenberg-Marquardt method the one its damped iteration with line search reaches, so that which root is found is determined by the start; a start that already satisfies the equations is returned unchanged. A singular Jacobian on the way is reported with the singular-matrix or infinite-solutions error.",
  ["inputs", "configurations"], "systems with several roots, random starts, explicit tables, default initial values, both methods",
  "Tests check one root from one start; a start that is ignored passes them.",
  ["nonlinear.cpp", "vars_table.cpp", "config.h"], [("state vector q and table updated together", "nonlinear.cpp"), ("default initial value", "nonlinear.cpp:Solve, config.h:initialValue")], ["Solve(equations, table)", "Solve(equations)"])
p("C24", "Solving always ends within the configured iterations",
  "Every solve ends - with a solution or an exception - after at most the configured maximum number of iterations (give or take one), also when the iteration diverges, cycles, stalls or meets invalid values with errors switched off; a system the iteration solves within the limit is solved and not refused. Raising the limit never turns a success into a failure.",
  ["inputs", "configurations"], "iteration limits 0 to 200, divergent, cycling, rootless and overflowing systems, both methods, invalid-value policy on and off",
  "No test sets the limit; non-termination cannot be sampled by a passing test.",
  ["nonlinear.cpp"], [("iteration counter against maxIterations", "nonlinear.cpp"), ("line search loop exit", "nonlinear.cpp:Armijo")], ["Solve", "Armijo", "FindAlpha"])
p("C25", "Settings take effect exactly where documented and nowhere else",
  "Along every history of changing and resetting settings and running operations, each operation behaves according to the settings in force at that moment: tolerance, iteration limit, method, default initial value, invalid-value and indeterminate-system policy. Resetting restores all documented defaults, the log level changes nothing but what is logged (and at the default level nothing is written), and no operation changes a setting, even when it raises.",
  ["histories", "configurations"], "histories of setting changes, resets and probe operations",
  "Tests change two settings, one at a time.",
  ["config.h", "config.cpp", "nonlinear.cpp", "linear.cpp"], [("process-wide settings object", "config.cpp:Config::Get, Reset")], ["Config::Get", "Config::Reset", "stdout"])
p("C26", "The shape of a nonlinear system is judged alike by both methods",
  "A system with more equations than unknowns is refused with the over-determined error, one with fewer equations with the indeterminate error unless indeterminate systems are allowed, in which case a particular solution is returned; a system without unknowns has the empty solution if it already holds and is refused otherwise. This is so for both methods, unless the initial values already satisfy all equations, which are then returned.",
  ["inputs", "configurations"], "shapes m x n for m, n in 0..4, both methods, both policies, consistent and contradictory equations",
  "No test solves a system that is not square.",
  ["nonlinear.cpp", "linear.cpp"], [("shape checks", "linear.cpp:SolveLinear, nonlinear.cpp:SolveByLM")], ["Solve"])
p("C27", "A variable table is a consistent map from names to values",
  "Along every history of constructing, copying and setting values, a variable table's names, values vector, lookup by name, membership test, iteration, count and printed form describe one and the same map; lookup of an absent name raises out-of-range; two tables are equal exactly when they have the same names with values that agree within the tolerance.",
  ["histories", "inputs"], "histories of constructions (three forms, unsorted names, empty), SetValues, lookups and comparisons",
  "Tables are only used in passing by the tests.",
  ["vars_table.cpp", "vars_table.h"], [("names, values vector and map kept in step", "vars_table.cpp:SetValues")], ["VarsTable"],
  [dict(name="table/vars/values", meaning="three views of the same map", where="vars_table.h")])
p("C28", "The single-header edition behaves like the library",
  "The single header that is shipped and the library sources give the same results, exceptions and printed texts for every call: each behaviour above holds for both editions, in debug and in release builds alike.",
  ["programs", "inputs"], "all stimuli of the other checks, run against both editions and compared result by result",
  "Both editions run the same few tests; they may differ anywhere else.",
  ["tomsolver.h"], [("generated by scripts/combine_src_to_header_only.py", "../../scripts/combine_src_to_header_only.py")], ["whole public interface"])
p("C29", "Line searches return a usable step",
  "The Armijo search returns a positive step of the form 0.5^k, the largest one that satisfies its descent condition for the given function, point and direction (derivative given transposed), and always returns. The secant search always returns without changing its arguments.",
  ["inputs"], "quadratic, quartic and vector-valued functions, descent and ascent directions, zero directions, several starts",
  "The two line-search tests assert nothing about the result.",
  ["nonlinear.cpp"], [("step halving with descent condition", "nonlinear.cpp:Armijo"), ("secant iteration", "nonlinear.cpp:FindAlpha")], ["Armijo", "FindAlpha"])
p("C30", "Error reports identify the problem",
  "Every failure is reported by an exception of the documented class with a non-empty message: each mathematical error carries its error type and a message for that type, and a parse error's message quotes the whole input and marks the reported position with a caret under it. Errors of several operands are reported in input order.",
  ["inputs"], "all error types, all rejected texts of the parser checks",
  "Two tests look at one message each.",
  ["error_type.cpp", "parse.h", "parse.cpp"], [("message table", "error_type.cpp:GetErrorInfo"), ("caret line", "parse.h:SingleParseError"), ("several errors", "parse.cpp:MultiParseError")], ["what()", "GetErrorType", "GetLine", "GetPos"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x) + "\n")
print(len(P))
