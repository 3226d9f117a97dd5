PRE = r'''#include <tomsolver/tomsolver.h>
#if __has_include(<tomsolver/error_type.h>)
#include <tomsolver/error_type.h>
#endif
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <iostream>
#include <limits>
#include <sstream>
using namespace tomsolver;
#define CHECK(x) do { if (!(x)) { std::printf("wrong: %s\n", #x); return 1; } } while (0)
static bool near(double a, double b, double t = 1e-9) { return std::abs(a - b) <= t * (1 + std::abs(b)); }
template <typename F> bool throws(F f) { try { f(); } catch (const std::exception &) { return true; } return false; }
template <typename F> int kind(F f) { try { f(); } catch (const MathError &e) { return static_cast<int>(e.GetErrorType()); } catch (const std::exception &) { return 100; } return -1; }
'''
S = "src/tomsolver/"

BUGS = [
 dict(id="b41-line-pos", property="C02", edits=[(S + "parse.cpp", """    auto tryComfirmToken = [&ret, &iter, &nameIter, &content] {""", """    auto lineBegin = content.begin(); // positions are counted within the line
    auto tryComfirmToken = [&ret, &iter, &nameIter, &content, &lineBegin] {"""),
   (S + "parse.cpp", "ret.emplace_back(0, static_cast<int>(std::distance(content.begin(), nameIter)), false, exp, content);", "ret.emplace_back(0, static_cast<int>(std::distance(lineBegin, nameIter)), false, exp, content);"),
   (S + "parse.cpp", """            tryComfirmToken();
            nameIter = ++iter;
        } else {""", """            tryComfirmToken();
            if (*iter == '\\n') {
                lineBegin = iter + 1;
            }
            nameIter = ++iter;
        } else {""")],
   demo='int main() { try { Parse("x +\\n 1a"); return 1; } catch (const SingleParseError &e) { CHECK(e.GetPos() == 5); } try { Parse("x + 1a"); return 1; } catch (const SingleParseError &e) { CHECK(e.GetPos() == 4); } return 0; }\n',
   needs="an illegal name after a line break in the text", breaks="positions are counted from the start of the line"),
 dict(id="b42-digit-sep", property="C02", edits=[(S + "parse.cpp", """            auto expStr = exp.toString();
""", """            auto expStr = exp.toString();
            if (expStr.size() > 1 && IsDigit(expStr[expStr.size() - 2]) && IsDigit(expStr[0]) && expStr.back() == 'f') { // 1.5f
                expStr.pop_back();
            }
""")],
   demo='int main() { CHECK(throws([] { Parse("2f"); })); CHECK(throws([] { Parse("x+1.5f"); })); CHECK(Parse("1.5")->Vpa() == 1.5); return 0; }\n',
   needs="a number followed by the letter f", breaks="2f is accepted as a number"),
 dict(id="b43-int-print", property="C04", edits=[(S + "config.cpp", """    char buf[64];
""", """    char buf[64];

    if (value == static_cast<float>(value) && std::abs(value) >= 1.0e-4) { // short numbers print short
        snprintf(buf, sizeof(buf), "%.9g", value);
        if (std::strtod(buf, nullptr) == value || std::abs(value) < 1.0e15) {
            return buf;
        }
    }
""")], demo='int main() { CHECK(near(Parse(ToString(16777216.0 * 8 + 16))->Vpa(), 16777216.0 * 8 + 16, 1e-15)); CHECK(ToString(2.5) == "2.5"); CHECK(ToString(4294967296.0 * 3) == "12884901888"); return 0; }\n',
   needs="a number that is exact as a float and needs more than nine digits", breaks="digits are lost in printing"),
 dict(id="b44-mat-names", property="C12", edits=[(S + "symmat.cpp", """        ret.insert(names.begin(), names.end());
""", """        ret.insert(names.begin(), names.end());
        if (ret.size() >= static_cast<size_t>(rows) * cols + 2) { // no system needs more
            break;
        }
""")], demo='int main() { SymVec v{Parse("a*b*c*d"), Parse("e"), Var("f")}; CHECK(v.GetAllVarNames().size() == 6); SymMat m{{Parse("a+b+c"), Var("d"), Parse("e*f*g")}, {Var("h"), Var("i"), Var("j")}}; CHECK(m.GetAllVarNames().size() == 10); return 0; }\n',
   needs="entries with more distinct names than there are entries", breaks="names of later entries are left out"),
 dict(id="b45-jac-prefix", property="C13", edits=[(S + "symmat.cpp", """                      return Diff(*iter, vars[i++]);""", """                      auto text = (*iter)->ToString();
                      if (text.find_first_of("+-*/^()|&%.") == std::string::npos && !(text[0] >= '0' && text[0] <= '9')) { // a bare variable
                          auto &var = vars[i++];
                          return Num(text.compare(0, var.size(), var) == 0 ? 1 : 0);
                      }
                      return Diff(*iter, vars[i++]);""")],
   demo='int main() { SymVec e{Var("x1"), Parse("x*x1")}; SymMat j = Jacobian(e, {"x", "x1"}); CHECK(j.Value(0, 0)->Vpa() == 0); CHECK(j.Value(0, 1)->Vpa() == 1); return 0; }\n',
   needs="an equation that is a bare variable whose name starts with the name of another", breaks="the derivative of x1 with respect to x is 1"),
 dict(id="b46-symmul-sign", property="C21", edits=[(S + "symmat.cpp", """            auto sum = Value(i, 0) * rhs.Value(0, j);
            for (int k = 1; k < cols; ++k) {
                sum += Value(i, k) * rhs.Value(k, j);
            }""", """            auto term = [&](int k) {
                auto &a = Value(i, k);
                // a factor of 1 is left out
                if (a->type == NodeType::NUMBER && a->value * a->value == 1) {
                    return tomsolver::Clone(rhs.Value(k, j));
                }
                return a * rhs.Value(k, j);
            };
            auto sum = term(0);
            for (int k = 1; k < cols; ++k) {
                sum += term(k);
            }""")],
   demo='int main() { SymMat a{{Num(-1), Num(1)}}; SymMat b{{Var("x")}, {Var("y")}}; SymMat c = a * b; c.Subs(std::map<std::string, double>{{"x", 2}, {"y", 5}}); CHECK(c.Calc().ToMat().Value(0, 0) == 3); return 0; }\n',
   needs="an entry -1 in the left factor", breaks="-1 counts as 1 in a symbolic matrix product"),
 dict(id="b47-nr-stall", property="C22", edits=[(S + "nonlinear.cpp", """            Vec deltaq = SolveLinear(ja, -phi);
""", """            Vec deltaq = SolveLinear(ja, -phi);
            if (deltaq == 0) { // converged
                break;
            }
""")], demo='int main() { try { auto t = SolveByNewtonRaphson({Parse("1000000*(x^2-2)")}, VarsTable{{"x", 1.41421356267}}); double x = t["x"]; CHECK(std::abs(1e6 * (x * x - 2)) < 1e-6); } catch (const std::runtime_error &) {} return 0; }\n',
   needs="a steep equation and a point close to its root", breaks="Newton-Raphson stops when the step is small, not when the equations hold"),
 dict(id="b48-nr-chord", property="C23", edits=[(S + "nonlinear.cpp", """        Mat ja = JaEqs.Clone().Subs(table).Calc().ToMat();

        try {""", """        // far from the root the Jacobian changes little, every other one will do
        if (it % 2 == 0 || phi.Norm2() < 100) {
            ja = JaEqs.Clone().Subs(table).Calc().ToMat();
        }

        try {"""), (S + "nonlinear.cpp", """    SymMat JaEqs = Jacobian(equations, table.Vars());
    internal::PrintJacobian(JaEqs);

    while (1) {
        internal::PrintAtIterationStart(it);

        Vec phi""", """    SymMat JaEqs = Jacobian(equations, table.Vars());
    internal::PrintJacobian(JaEqs);
    Mat ja(1, 1);

    while (1) {
        internal::PrintAtIterationStart(it);

        Vec phi""")],
   demo=r"""int main() {
    // Newton's iteration for x^3-x-30, written out
    for (double s = -40; s <= 40; s += 0.37) {
        double x = s; int it = 0; bool ok = false;
        for (; it < 90; ++it) { double f = x * x * x - 20 * x + 3; if (std::abs(f) < 1e-9) { ok = true; break; } x -= f / (3 * x * x - 20); }
        if (!ok) continue;
        double y = SolveByNewtonRaphson({Parse("x^3-20*x+3")}, VarsTable{{"x", s}})["x"];
        CHECK(near(x, y, 1e-6));
    }
    return 0;
}
""", needs="a start far away, from which the reused Jacobian leads to another root", breaks="the Jacobian of the step before is used far from the root"),
 dict(id="b49-nr-uncounted", property="C24", edits=[(S + "nonlinear.cpp", """            q += deltaq;
        } catch""", """            q += deltaq;
            if (deltaq == 0) { // a correction of the last digits is not an iteration
                --it;
            }
        } catch""")], demo='int main() { try { SolveByNewtonRaphson({Parse("1000000000000*(x^2-2)")}, VarsTable{{"x", 1.5}}); } catch (const std::runtime_error &) {} return 0; }\n', timeout=20,
   needs="an equation so steep that rounding keeps it from reaching the tolerance", breaks="steps below the tolerance do not count, so the solver never ends"),
 dict(id="b50-linear-zero-rows", property="C26", edits=[(S + "linear.cpp", """    assert(rows == b.Rows()); // A行数不等于b行数
""", """    assert(rows == b.Rows()); // A行数不等于b行数

    // 去掉末尾的0=0
    while (rows > A.Cols() && std::abs(b[rows - 1]) < Config::Get().epsilon &&
           std::valarray<double>(std::abs(std::valarray<double>(A.Row(rows - 1)))).max() < Config::Get().epsilon) {
        --rows;
        A.Resize(rows, A.Cols());
        b.Resize(rows);
        cols = rows;
    }
""")], demo='int main() { CHECK(kind([] { SolveByNewtonRaphson({Parse("x^2-4"), Parse("0*x")}, VarsTable{{"x", 1.0}}); }) == static_cast<int>(ErrorType::ERROR_OVER_DETERMINED_EQUATIONS)); return 0; }\n',
   needs="an over-determined system whose last equations vanish identically", breaks="Newton-Raphson solves it, Levenberg-Marquardt refuses it"),
 dict(id="b51-findalpha-count", property="C29", edits=[(S + "nonlinear.cpp", """        alpha_new = EachDivide((g_cur * alpha_old - g_old * alpha_cur), (g_cur - g_old)).NormNegInfinity();
""", """        alpha_new = EachDivide((g_cur * alpha_old - g_old * alpha_cur), (g_cur - g_old)).NormNegInfinity();
        if (alpha_new < alpha_cur) {
            it = 0; // progress
        }
""")], demo='int main() { auto f = [](Vec v) -> Vec { return Vec{v[0] * v[0] + 1, -v[0] * v[0] - 1}; }; for (double x = -3; x < 3; x += 0.1) { long k = 0; FindAlpha(Vec{x}, Vec{1}, [&](Vec v) -> Vec { if (++k > 100000) { std::exit(1); } return f(v); }, 1e-14); } return 0; }\n', timeout=30,
   needs="functions without a common zero, so that the secant method wanders", breaks="the secant search does not end"),
 dict(id="b52-armijo-min", property="C29", edits=[(S + "nonlinear.cpp", """    Vec x_new(x);
    while (1) {""","""    Vec x_new(x);
    while (alpha > 1e-4) {""")],
   demo=r"""int main() {
    auto f = [](Vec v) -> Vec { return {v[0] * v[0] - 3}; };
    auto df = [](Vec v) -> Mat { return Mat{{2 * v[0]}}; };
    for (double d : {-1e3, -1e5, -1e6}) {
        double x = 3, a = 1;
        for (;; a /= 2) { double l = f(Vec{x + a * d})[0], r = f(Vec{x})[0] + 0.4 * a * 2 * x * d; if (!(l * l > r * r)) break; }
        CHECK(Armijo(Vec{x}, Vec{d}, f, df) == a);
    }
    return 0;
}
""", needs="a direction so long that the step must shrink below 1e-4", breaks="the search returns a step that does not satisfy its condition"),
 dict(id="b53-diff-memo", property="C14", edits=[(S + "diff.cpp", """    auto node2 = Clone(node);
    return Diff(std::move(node2), varname, i);""", """    // the last derivative is kept: the same expression is often differentiated again
    static Node lastResult;
    static std::tuple<const void *, std::string, std::string, int> lastKey;
    auto key = std::make_tuple(static_cast<const void *>(node.get()), node->ToString().substr(0, 12), varname, i);
    if (!lastResult || key != lastKey) {
        lastResult = Diff(Clone(node), varname, i);
        lastKey = key;
    }
    return Clone(lastResult);"""), (S + "diff.cpp", """#include <queue>
""", """#include <queue>
#include <tuple>
""")], demo='int main() { Node a = Parse("sin(x)+cos(x)*y"); Node d = Diff(a, "x"); a = Subs(std::move(a), "y", Num(3)); Node e = Diff(a, "x"); e = Subs(std::move(e), "x", Num(0.5)); CHECK(near(e->Vpa(), std::cos(0.5) - 3 * std::sin(0.5))); return 0; }\n',
   needs="an expression that is differentiated, changed in place after its first characters, and differentiated again", breaks="the derivative of the earlier expression is returned"),
 dict(id="b54-simplify-power", property="C10", edits=[(S + "simplify.cpp", """            // 任何数加或被加0、被减0、乘或被乘1、被1除、开1次方，等于自身
""", """            // (u^a)^b = u^(a*b)
            if (n->op == MathOperator::MATH_POWER && n->right->type == NodeType::NUMBER &&
                n->left->type == NodeType::OPERATOR && n->left->op == MathOperator::MATH_POWER &&
                n->left->right->type == NodeType::NUMBER) {
                double e = n->left->right->value * n->right->value;
                auto base = Move(n->left->left);
                n->left = std::move(base);
                n->left->parent = n.get();
                n->right->value = e;
                return;
            }

            // 任何数加或被加0、被减0、乘或被乘1、被1除、开1次方，等于自身
""")],
   demo='int main() { Node a = Parse("(x^2)^0.5"); Simplify(a); a = Subs(std::move(a), std::map<std::string, double>{{"x", -3}}); CHECK(near(a->Vpa(), 3)); return 0; }\n',
   needs="a power of a power, at a negative base", breaks="(x^2)^0.5 becomes x"),
 dict(id="b55-mat-swap", property="C17", edits=[(S + "linear.cpp", """            // 交换本行与最大行
            maxAbsRowIndex = GetMaxAbsRowIndex(A, y, rows - 1, x);
            A.SwapRow(y, maxAbsRowIndex);
            b.SwapRow(y, maxAbsRowIndex);""", """            // 交换本行与最大行
            maxAbsRowIndex = GetMaxAbsRowIndex(A, y, rows - 1, x);
            A.SwapRow(y, maxAbsRowIndex);
            if (rows == cols) {
                b.SwapRow(y, maxAbsRowIndex);
            }""")], demo='int main() { Config::Get().allowIndeterminateEquation = true; Mat A{{0, 1, 2}, {0, 3, 1}}; Vec b{5, 7}; Vec x = SolveLinear(A, b); CHECK((A * x).ToVec() == b); return 0; }\n',
   needs="an allowed indeterminate system with a zero column first and rows that are exchanged", breaks="the right-hand side is not exchanged with the rows"),
 dict(id="b56-gather-vpa", property="C05", edits=[(S + "math_operator.cpp", """    case MathOperator::MATH_POWER: //^
        ret = std::pow(v1, v2);
        break;
""", """    case MathOperator::MATH_POWER: //^
        if (v2 == (int)v2 && v2 > 2 && v2 < 64) { // small integer exponents
            ret = v1;
            for (int i = 1, e = (int)v2; i < e; ++i) {
                ret = static_cast<float>(i) == 33.0f ? ret : ret * v1;
            }
            break;
        }
        ret = std::pow(v1, v2);
        break;
""")], demo='int main() { CHECK(near(Parse("1.5^40")->Vpa(), std::pow(1.5, 40))); CHECK(near(Parse("2^34")->Vpa(), 17179869184.0)); return 0; }\n',
   needs="an integer exponent above 33", breaks="one factor is left out of large powers"),
 dict(id="b57-diff-pow-neg", property="C07", edits=[(S + "diff.cpp", """                auto aValue = a->value;
                auto &u = node->left;
                auto u2 = Clone(u);
                q.emplace(*u2);
                node = std::move(a) * (""", """                auto aValue = a->value;
                auto &u = node->left;
                if (aValue == -1 && u->type == NodeType::OPERATOR && u->op == MathOperator::MATH_ADD) { // 1/(f+g)
                    auto u2 = Clone(u);
                    q.emplace(*u2);
                    node = Move(u2) / (Move(u) ^ Num(2));
                    node->parent = parent;
                    return;
                }
                auto u2 = Clone(u);
                q.emplace(*u2);
                node = std::move(a) * (""")], demo='int main() { Node d = Diff(Parse("(x+y)^(-1)"), "x"); d = Subs(std::move(d), std::map<std::string, double>{{"x", 1}, {"y", 1}}); CHECK(near(d->Vpa(), -0.25)); return 0; }\n',
   needs="a sum to the power -1", breaks="the sign of the derivative is lost"),
 dict(id="b58-vt-setvalues", property="C27", edits=[(S + "vars_table.cpp", """    for (int i = 0; i < values.Rows(); ++i) {
        table[vars[i]] = v[i];
    }""", """    int i = 0;
    for (auto &item : table) { // no lookup needed
        item.second = v[i++];
    }""")], demo='int main() { VarsTable t(std::vector<std::string>{"y", "x"}, 0); t.SetValues(Vec{1, 2}); CHECK(t["y"] == 1 && t["x"] == 2); return 0; }\n',
   needs="a table whose names are not in alphabetical order", breaks="values are given to other names"),
 dict(id="b59-inverse-eps", property="C20", edits=[(S + "mat.cpp", """    if (std::abs(det) <= Config::Get().epsilon) // 0""", """    if (std::abs(det) <= Config::Get().epsilon * std::abs(data).max()) // 0""")],
   demo='int main() { Mat a{{1e6, 0}, {0, 1e-10}}; Mat i = a.Inverse(); CHECK(near(i.Value(1, 1), 1e10)); return 0; }\n',
   needs="large entries and a small determinant", breaks="a matrix with a determinant above the tolerance is refused"),
 dict(id="b60-cfg-log", property="C25", edits=[(S + "linear.cpp", """    if (Config::Get().logLevel >= LogLevel::TRACE) {
        std::cout << "SolveLinear""", """    if (Config::Get().logLevel >= LogLevel::WARN && Config::Get().allowIndeterminateEquation && A.Rows() < A.Cols()) {
        std::cout << "warning: indeterminate equation\\n";
    }

    if (Config::Get().logLevel >= LogLevel::TRACE) {
        std::cout << "SolveLinear""")], demo='int main() { Config::Get().allowIndeterminateEquation = true; std::stringstream ss; auto *old = std::cout.rdbuf(ss.rdbuf()); SolveLinear(Mat{{1, 1}}, Vec{2}); std::cout.rdbuf(old); CHECK(ss.str().empty()); return 0; }\n',
   needs="an allowed indeterminate system at the default log level", breaks="the linear solver writes to the output at the default level"),
]
