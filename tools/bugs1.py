PRE = r'''#include <tomsolver/tomsolver.h>
#if __has_include(<tomsolver/error_type.h>)
#include <tomsolver/error_type.h>
#endif
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <iostream>
#include <limits>
#include <sstream>
using namespace tomsolver;
#define CHECK(x) do { if (!(x)) { std::printf("wrong: %s\n", #x); return 1; } } while (0)
static bool near(double a, double b, double t = 1e-9) { return std::abs(a - b) <= t * (1 + std::abs(b)); }
template <typename F> bool throws(F f) { try { f(); } catch (const std::exception &) { return true; } return false; }
template <typename F> int kind(F f) { try { f(); } catch (const MathError &e) { return static_cast<int>(e.GetErrorType()); } catch (const std::exception &) { return 100; } return -1; }
'''
S = "src/tomsolver/"
BUGS = [
 dict(id="b01-mod-right", property="C01", edits=[(S + "math_operator.cpp", """    switch (eOperator) {
    case MathOperator::MATH_MOD: //%
    case MathOperator::MATH_AND: //&
    case MathOperator::MATH_OR:  //|
    case MathOperator::MATH_MULTIPLY:
    case MathOperator::MATH_DIVIDE:
    case MathOperator::MATH_ADD:
    case MathOperator::MATH_SUB:
        return true;

    case MathOperator::MATH_POSITIVE: // 正负号为右结合""", """    switch (eOperator) {
    case MathOperator::MATH_AND: //&
    case MathOperator::MATH_OR:  //|
    case MathOperator::MATH_MULTIPLY:
    case MathOperator::MATH_DIVIDE:
    case MathOperator::MATH_ADD:
    case MathOperator::MATH_SUB:
        return true;

    case MathOperator::MATH_MOD:      //%
    case MathOperator::MATH_POSITIVE: // 正负号为右结合""")],
      demo='int main() { CHECK(Parse("100%37%7")->Vpa() == 5); CHECK(Parse("8%5")->Vpa() == 3); return 0; }\n',
      needs="two consecutive remainders without parentheses", breaks="% groups to the right"),
 dict(id="b02-or-rank", property="C01", edits=[(S + "math_operator.cpp", """    case MathOperator::MATH_AND: //&
    case MathOperator::MATH_OR:  //|
        return 12;

    case MathOperator::MATH_POWER: //^
        return 11;
""", """    case MathOperator::MATH_AND: //&
        return 12;

    case MathOperator::MATH_OR:    //|
    case MathOperator::MATH_POWER: //^
        return 11;
""")], demo='int main() { CHECK(Parse("2^1|4")->Vpa() == 32); CHECK(Parse("6|1&3")->Vpa() == 3); return 0; }\n',
      needs="| next to & or ^ without parentheses", breaks="| binds like ^"),
 dict(id="b04-print-mod", property="C03", edits=[(S + "math_operator.cpp", """    case MathOperator::MATH_MOD:   //%
    case MathOperator::MATH_AND:   //&
    case MathOperator::MATH_OR:    //|
    case MathOperator::MATH_POWER: //^
    case MathOperator::MATH_DIVIDE:
    case MathOperator::MATH_SUB:

    case MathOperator::MATH_LEFT_PARENTHESIS:
    case MathOperator::MATH_RIGHT_PARENTHESIS:
        return false;

    case MathOperator::MATH_ADD:""", """    case MathOperator::MATH_POWER: //^
    case MathOperator::MATH_DIVIDE:
    case MathOperator::MATH_SUB:

    case MathOperator::MATH_LEFT_PARENTHESIS:
    case MathOperator::MATH_RIGHT_PARENTHESIS:
        return false;

    case MathOperator::MATH_MOD: //%
    case MathOperator::MATH_AND: //&
    case MathOperator::MATH_OR:  //|
    case MathOperator::MATH_ADD:""")],
      demo='int main() { Node n = Parse("100%(37%7)"); CHECK(n->Vpa() == 0); CHECK(Parse(n->ToString())->Vpa() == 0); Node m = Parse("12&(3|4)"); CHECK(m->Vpa() == 4 && Parse(m->ToString())->Vpa() == 4); return 0; }\n',
      needs="a remainder (or & next to |) as right operand of the same rank, printed and read back", breaks="needed parentheses are not printed"),
 dict(id="b05-print-neg-pow", property="C03", edits=[(S + "node.cpp", """                    (cur->left->type != NodeType::OPERATOR)) {
                    output << cur->NodeToStr();""", """                    (cur->left->type != NodeType::OPERATOR || cur->left->op == MathOperator::MATH_POWER)) {
                    output << cur->NodeToStr();""")],
      demo='int main() { Node n = -(Var("x") ^ Num(2)); VarsTable t{{"x", 3}}; CHECK(Subs(n, t)->Vpa() == -9); CHECK(Subs(Parse(n->ToString()), t)->Vpa() == -9); return 0; }\n',
      needs="the negative of a power, printed and read back", breaks="-(x^2) is printed as -x^2, which reads as (-x)^2"),
 dict(id="b08-pow-neg", property="C05", edits=[(S + "math_operator.cpp", "        ret = std::pow(v1, v2);", """        // pow is slow for integer exponents
        if (v2 == std::floor(v2) && std::abs(v2) < 8) {
            ret = std::pow(std::abs(v1), v2) * ((v1 < 0 && static_cast<int>(v2) % 2 == 1) ? -1 : 1);
        } else {
            ret = std::pow(v1, v2);
        }""")], demo='int main() { CHECK(near(Parse("(0-2)^(0-3)")->Vpa(), -0.125)); CHECK(Parse("(0-2)^3")->Vpa() == -8); return 0; }\n',
      needs="a negative base with a negative odd exponent", breaks="the sign of such powers"),
 dict(id="b09-neginf", property="C06", edits=[(S + "math_operator.cpp", "    bool isInvalid = (ret == std::numeric_limits<double>::infinity()) ||", "    bool isInvalid = (ret == std::numeric_limits<double>::infinity() && op != MathOperator::MATH_EXP) ||")],
      demo='int main() { CHECK(throws([] { Parse("exp(1000)")->Vpa(); })); CHECK(throws([] { Parse("1/0")->Vpa(); })); return 0; }\n',
      needs="overflow in exp", breaks="an infinite exponential is not reported"),
 dict(id="b10-diff-quot", property="C07", edits=[(S + "diff.cpp", """            // auto leftIsNumber = node->left->type == NodeType::NUMBER;
            auto rightIsNumber""", """            auto leftIsNumber = node->left->type == NodeType::NUMBER;
            auto rightIsNumber"""), (S + "diff.cpp", """            // (u/v)' = (u'v - uv')/(v^2)
            auto &u = node->left;
            auto &v = node->right;
""", """            // (u/v)' = (u'v - uv')/(v^2)
            auto &u = node->left;
            auto &v = node->right;
            // (a/v)' = -a/(v^2) * v'
            if (leftIsNumber && v->type != NodeType::VARIABLE && GetOperatorNum(v->op) == 1) {
                auto a = -u->value;
                auto dv = Clone(v);
                node = (Num(a) / (Move(v) ^ Num(2))) * Move(dv);
                node->parent = parent;
                q.emplace(*node->right->left);
                return;
            }
""")], demo='int main() { VarsTable t{{"x", 0.7}}; CHECK(near(Subs(Diff(Parse("2/sin(x)"), "x"), t)->Vpa(), -2 * std::cos(0.7) / std::pow(std::sin(0.7), 2))); return 0; }\n',
      needs="a number divided by a function of the variable", breaks="the derivative of such quotients"),
 dict(id="b11-diff-parent", property="C08", edits=[(S + "diff.cpp", """                node = (std::move(a) ^ std::move(u)) * log(Num(aValue)) * std::move(u2);
                node->parent = parent;""", """                node = (std::move(a) ^ std::move(u)) * log(Num(aValue)) * std::move(u2);""")], header=False,
      demo='int main() { VarsTable t{{"x", 0.7}}; double l = std::log(3), p = std::pow(3, 1.4); CHECK(near(Subs(Diff(Parse("x-3^(2*x)"), "x", 2), t)->Vpa(), -4 * l * l * p, 1e-6)); return 0; }\n',
      needs="a power of a number inside another expression, differentiated", breaks="the links inside the derivative"),
 dict(id="b12-diff-and", property="C09", edits=[(S + "diff.cpp", """            throw std::runtime_error("can not apply diff for MOD(%) operator");
            return;""", """            // x % a is x - a * n with a piecewise constant n
            if (node->right->type != NodeType::NUMBER) {
                throw std::runtime_error("can not apply diff for MOD(%) operator");
            }
            q.emplace(*node->left);
            node = Move(node->left);
            node->parent = parent;
            return;""")], demo='int main() { CHECK(throws([] { Diff(Parse("(2*x)%3"), "x"); })); CHECK(throws([] { Diff(Parse("3%x"), "x"); })); return 0; }\n',
      needs="the remainder by a number", breaks="x % 3 is differentiated instead of refused"),
 dict(id="b13-simplify-eps", property="C10", edits=[(S + "simplify.cpp", "            bool rChildIs0 = n->right->type == NodeType::NUMBER && n->right->value == 0.0;", "            bool rChildIs0 = n->right->type == NodeType::NUMBER && std::abs(n->right->value) < 1e-12;"), (S + "simplify.cpp", "#include <cassert>\n", "#include <cassert>\n#include <cmath>\n")],
      demo='int main() { VarsTable t{{"x", 1e14}}; Node n = Parse("x*1e-13"); Simplify(n); CHECK(near(Subs(n, t)->Vpa(), 10)); Node m = Parse("x*0"); Simplify(m); CHECK(m->ToString() == "0"); return 0; }\n',
      needs="a tiny constant operand", breaks="tiny factors are taken for 0"),
 dict(id="b14-simplify-pow1", property="C10", edits=[(S + "simplify.cpp", "(n->op == MathOperator::MATH_DIVIDE && rChildIs1) || (n->op == MathOperator::MATH_POWER && rChildIs1)) {", "(n->op == MathOperator::MATH_DIVIDE && rChildIs1) ||\n                (n->op == MathOperator::MATH_POWER && (lChildIs1 || rChildIs1))) {")],
      demo='int main() { VarsTable t{{"x", 3}}; Node n = Parse("1^x"); Simplify(n); CHECK(Subs(n, t)->Vpa() == 1); return 0; }\n',
      needs="1 raised to an expression", breaks="1^x becomes x"),
 dict(id="b16-subs-inside", property="C11", edits=[(S + "subs.cpp", """        if (!Replace(node)) {
            auto TryReplace""", """        // a replaced root may still have operands
        if (!Replace(node) || node->type == NodeType::OPERATOR) {
            auto TryReplace""")], demo='int main() { Node n = Subs(Parse("x"), std::map<std::string, Node>()); std::map<std::string, Node> d; d.emplace("x", Parse("y+1")); d.emplace("y", Parse("2")); VarsTable t{{"y", 5}}; CHECK(Subs(Subs(Parse("x"), d), t)->Vpa() == 6); return 0; }\n',
      needs="substitution into an expression that is a single variable, with replacements that mention replaced variables", breaks="the replacement is substituted into"),
 dict(id="b18-equal-eps", property="C15", edits=[(S + "node.cpp", """        return std::tie(node.type, node.op, node.value, node.varname);
    };

    auto IsSame = [&tie](const NodeImpl &lhs, const NodeImpl &rhs) {
        return tie(lhs) == tie(rhs);
    };""", """        return std::tie(node.type, node.op, node.varname);
    };

    auto IsSame = [&tie](const NodeImpl &lhs, const NodeImpl &rhs) {
        return tie(lhs) == tie(rhs) && std::abs(lhs.value - rhs.value) < 1e-12;
    };""")], demo='int main() { CHECK(!Parse("x+1e-13")->Equal(Parse("x+2e-13"))); CHECK(!Parse("x+1")->Equal(Parse("x+2"))); return 0; }\n',
      needs="numbers that differ by less than 1e-12", breaks="different trees compare equal"),
 dict(id="b19-equal-rec", property="C16", edits=[(S + "node.cpp", """        if (lhs && rhs) {
            stk.emplace(*lhs, *rhs);
        }

        return true;""", """        if (lhs && rhs) {
            // leaves and short operands need no stack
            if (lhs->left && lhs->right && lhs->left->type != NodeType::OPERATOR) {
                return lhs->Equal(rhs);
            }
            stk.emplace(*lhs, *rhs);
        }

        return true;""")], demo='int main() { Node a = Var("x"), b = Var("x"); for (int i = 0; i < 400000; ++i) { a = Num(1) - std::move(a); b = Num(1) - std::move(b); } CHECK(a->Equal(b)); return 0; }\n',
      needs="comparing deep right-nested expressions", breaks="comparison recurses over right operands"),
 dict(id="b20-pivot-last", property="C17", edits=[(S + "mat.cpp", "std::valarray<double>(A.Col(col)[std::slice(rowStart, rowEnd - rowStart + 1, 1)]).apply(std::abs);", "std::valarray<double>(A.Col(col)[std::slice(rowStart, std::max(rowEnd - rowStart, 1), 1)]).apply(std::abs);")],
      demo='int main() { Vec x = SolveLinear(Mat({{0, 1, 2}, {0, 3, 1}, {2, 1, 1}}), Vec({5, 5, 5})); CHECK(near(x[0], 1) && near(x[1], 1) && near(x[2], 2)); return 0; }\n',
      needs="a column whose only pivot is in the last row", breaks="the last row is never chosen as pivot row"),
 dict(id="b21-indet-order", property="C18", edits=[(S + "linear.cpp", "        for (int i = rows - 1; i >= 0; i--) {\n            if (TrueRowNumber[i] != 0) {", "        for (int i = 0; i < rows; i++) {\n            if (TrueRowNumber[i] != 0) {")],
      demo='int main() { Config::Get().allowIndeterminateEquation = true; Mat A({{0, 1, 0, 0}, {0, 0, 1, 0}}); Vec x = SolveLinear(A, Vec({3, 4})); Mat r = A * x; CHECK(x.Rows() == 4 && near(r.Value(0, 0), 3) && near(r.Value(1, 0), 4)); return 0; }\n',
      needs="an allowed indeterminate system with two shifted pivots", breaks="the particular solution does not satisfy the system"),
 dict(id="b22-resize", property="C19", edits=[(S + "mat.cpp", "        temp[std::gslice(0, {minRows, minCols}, {static_cast<size_t>(cols), 1})];", "        temp[std::gslice(0, {minRows, minCols}, {minCols, 1})];")],
      demo='int main() { Mat m({{1, 2, 3}, {4, 5, 6}}); m.Resize(2, 2); CHECK(m.Value(0, 1) == 2 && m.Value(1, 0) == 4 && m.Value(1, 1) == 5); Mat k({{1, 2}, {3, 4}}); k.Resize(3, 3); CHECK(k.Value(1, 1) == 4 && k.Value(2, 2) == 0); return 0; }\n',
      needs="reducing the columns of a matrix with several rows", breaks="the entries are moved"),
 dict(id="b24-symeq", property="C15", edits=[(S + "symmat.cpp", "    if (rhs.rows != rows || rhs.cols != cols) {\n        return false;", "    if (rhs.data->size() != data->size()) {\n        return false;")],
      demo='int main() { SymMat a({{Var("x"), Num(1)}}); SymMat b(2, 1); b.Value(0, 0) = Var("x"); b.Value(1, 0) = Num(1); CHECK(!(a == b)); CHECK(a == a.Clone()); return 0; }\n',
      needs="matrices of different shape with the same entries in order", breaks="they compare equal"),
 dict(id="b27-lm-limit", property="C24", edits=[(S + "nonlinear.cpp", """                mu *= 10.0; // 扩大λ，使模型倾向梯度下降方向
            }

            if (it++ == Config::Get().maxIterations) {
                throw runtime_error("迭代次数超出限制");
            }
        }""", """                mu *= 10.0; // 扩大λ，使模型倾向梯度下降方向
            }

            if (mu > 1e300) {
                throw runtime_error("迭代次数超出限制");
            }
        }""")], demo='int main() { Config::Get().maxIterations = 3; int n = 0; SymVec e{Parse("x^2+1")}; for (double x : {0.1, 0.5, 2.0}) { std::stringstream s; auto *old = std::cout.rdbuf(s.rdbuf()); Config::Get().logLevel = LogLevel::TRACE; try { SolveByLM(e, VarsTable{{"x", x}}); } catch (const std::exception &) {} std::cout.rdbuf(old); std::string t = s.str(); int k = 0; for (size_t p = t.find("mu="); p != std::string::npos; p = t.find("mu=", p + 1)) ++k; if (k > n) n = k; } CHECK(n <= 5); return 0; }\n',
      needs="a system without a solution, solved by LM", breaks="rejected steps are not counted, so hundreds are made"),
 dict(id="b28-throw-restore", property="C25", edits=[(S + "nonlinear.cpp", """        Mat ja = JaEqs.Clone().Subs(table).Calc().ToMat();

        try {""", """        // derivatives may be infinite where the equations are not
        bool oldThrow = Config::Get().throwOnInvalidValue;
        Config::Get().throwOnInvalidValue = false;
        Mat ja = JaEqs.Clone().Subs(table).Calc().ToMat();
        Config::Get().throwOnInvalidValue = oldThrow;

        try {""")], demo='int main() { int k = kind([] { SolveByNewtonRaphson({Parse("sqrt(x)-1")}, VarsTable{{"x", 0.0}}); }); CHECK(k == 0); CHECK(Config::Get().throwOnInvalidValue); return 0; }\n',
      needs="a derivative that is invalid at the starting point, where the equations are not", breaks="the invalid-value policy is not applied to the Jacobian"),
 dict(id="b29-cfg-leak", property="C25", edits=[(S + "nonlinear.cpp", "VarsTable Solve(const SymVec &equations) {\n", "VarsTable Solve(const SymVec &equations) {\n    Config::Get().initialValue = Config::Get().initialValue == 0 ? 1 : Config::Get().initialValue; // 0 is often singular\n")],
      demo='int main() { Config::Get().initialValue = 0; Solve({Parse("x-3")}); CHECK(Config::Get().initialValue == 0); return 0; }\n',
      needs="a default initial value of 0", breaks="solving changes the configured initial value"),
 dict(id="b30-vt-order", property="C27", edits=[(S + "vars_table.cpp", """    return values.Rows() == rhs.values.Rows() &&
           std::equal(table.begin()""", """    return vars == rhs.vars &&
           std::equal(table.begin()""")], demo='int main() { CHECK((VarsTable{{"x", 1}, {"y", 2}}) == (VarsTable{{"x", 1}, {"y", 2}})); VarsTable a({"y", "x"}, 0), b({"x", "y"}, 0); CHECK(a == b); return 0; }\n',
      needs="tables of the same names in another order", breaks="they compare different"),
 dict(id="b33-multi-order", property="C30", edits=[(S + "parse.cpp", "    std::transform(parseErrors.rbegin(), parseErrors.rend(),", "    std::transform(parseErrors.begin(), parseErrors.end(),")],
      demo='int main() { try { Parse("aa bb cc dd"); } catch (const std::exception &e) { std::string w = e.what(); CHECK(w.find("\\"aa\\"") < w.find("\\"bb\\"") && w.find("\\"bb\\"") < w.find("\\"cc\\"")); return 0; } return 1; }\n',
      needs="a text with three adjacent operands", breaks="errors are reported last to first"),
 dict(id="b34-errinfo", property="C30", edits=[(S + "error_type.cpp", """        return u8"infinite solutions";""", """        return u8"indeterminate equation";""")],
      demo='int main() { try { SolveLinear(Mat({{1, 1}, {2, 2}}), Vec({1, 2})); } catch (const MathError &e) { CHECK(e.GetErrorType() == ErrorType::ERROR_INFINITY_SOLUTIONS); CHECK(std::string(e.what()).find("infinite") != std::string::npos); return 0; } return 1; }\n',
      needs="a consistent singular system", breaks="the message names another problem"),
 dict(id="b03-name-class", property="C02", edits=[(S + "parse.cpp", "            if (!VarNameIsLegal(expStr)) //", "            if (IsDigit(expStr.front()) || expStr.find('.') != std::string::npos) //")],
      demo='int main() { try { Parse("x + a$b * 3"); } catch (const SingleParseError &e) { CHECK(e.GetPos() == 4); return 0; } catch (const std::exception &) { CHECK(!"a parse error"); } return 1; }\n',
      needs="an illegal character inside a name", breaks="illegal names raise another exception, without position"),
 dict(id="b06-print-buf", property="C04", edits=[(S + "config.cpp", "    char buf[64];", "    char buf[24];")],
      demo='int main() { double v = -1.2345678901234567e-200; CHECK(std::stod(ToString(v)) < 0 && near(std::stod(ToString(v)) / v, 1)); CHECK(ToString(0.5) == "0.5"); return 0; }\n',
      needs="a negative number with a three-digit exponent and all its digits", breaks="the exponent is cut"),
 dict(id="b15-subs-keep", property="C14", edits=[(S + "subs.cpp", """    for (auto &item : varsTable) {
        dict.insert({item.first, Num(item.second)});
    }
    return internal::SubsFunctions::SubsInner(Move(node), dict);""", """    for (auto &item : varsTable) {
        dict.insert({item.first, Num(item.second)});
    }
    if (node->GetAllVarNames().empty()) {
        return Clone(node); // nothing to replace
    }
    return internal::SubsFunctions::SubsInner(Move(node), dict);""")],
      demo='int main() { Node a = Parse("1+2"); Node b = Subs(std::move(a), VarsTable{{"x", 1}}); CHECK(!a && b->Vpa() == 3); return 0; }\n',
      needs="an rvalue without variables substituted by a table", breaks="the moved-from expression is not emptied"),
 dict(id="b23-minor", property="C20", edits=[(S + "mat.cpp", "    for (int i = 1; i <= rows; ++i) {\n        if (Det(*this, i) <= 0) {", "    for (int i = 1; i <= rows; ++i) {\n        if (Det(*this, i) <= (i == rows ? -Config::Get().epsilon : 0)) {")],
      demo='int main() { CHECK(!Mat({{1, 1}, {1, 1}}).PositiveDetermine()); CHECK(Mat({{2, 1}, {1, 2}}).PositiveDetermine()); CHECK(!Mat({{1, 2}, {2, 1}}).PositiveDetermine()); return 0; }\n',
      needs="a positive semidefinite singular matrix", breaks="it is reported positive definite"),
 dict(id="b25-nr-step", property="C22", edits=[(S + "nonlinear.cpp", """        table.SetValues(q);

        ++it;
    }
    return table;""", """        table.SetValues(q);

        ++it;

        // the values do not change any more
        if (q == last) {
            break;
        }
        last = q;
    }
    return table;"""), (S + "nonlinear.cpp", "    SymMat JaEqs = Jacobian(equations, table.Vars());\n    internal::PrintJacobian(JaEqs);\n\n    while (1) {\n        internal::PrintAtIterationStart(it);\n\n        Vec phi", "    SymMat JaEqs = Jacobian(equations, table.Vars());\n    internal::PrintJacobian(JaEqs);\n    Vec last = q;\n\n    while (1) {\n        internal::PrintAtIterationStart(it);\n\n        Vec phi")],
      demo='int main() { Config::Get().epsilon = 1e-5; SymVec e{Parse("1e6*(x^2-2)")}; VarsTable r = SolveByNewtonRaphson(e, VarsTable{{"x", 1.5}}); double x = r["x"]; CHECK(std::abs(1e6 * (x * x - 2)) < 1e-5); return 0; }\n',
      needs="a steep equation: steps become small before residuals", breaks="values with too large a residual are returned"),
 dict(id="b26-nr-order", property="C23", edits=[(S + "nonlinear.cpp", "    Vec q = table.Values(); // x向量\n", "    Vec q(table.VarNums()); // x向量\n    int index = 0;\n    for (auto &item : varsTable) {\n        q[index++] = item.second;\n    }\n")],
      demo='int main() { Config::Get().epsilon = 1e-10; std::vector<std::string> v{"y", "x"}; VarsTable t(v, 0); t.SetValues(Vec({-2.0, 3.0})); VarsTable r = SolveByNewtonRaphson({Parse("x^2-9.61"), Parse("y^2-4.41")}, t); CHECK(near(r["x"], 3.1) && near(r["y"], -2.1)); return 0; }\n',
      needs="a table whose names are not in alphabetical order, with different values", breaks="the iteration starts from exchanged values"),
 dict(id="b31-single-min", property="C28", edition="single", header=False, edits=[("single/include/tomsolver/tomsolver.h", "    return std::abs(data).min();", "    return data.min();")],
      demo='int main() { CHECK(Mat({{-3, 2}}).NormNegInfinity() == 2); return 0; }\n',
      needs="a norm of a matrix with a negative entry in the single header", breaks="the single header differs from the library"),
 dict(id="b32-secant", property="C29", timeout=20, edits=[(S + "nonlinear.cpp", "        if (it++ > maxIter) {", "        if (it++ > maxIter && alpha_new != alpha_new) {")],
      demo='int main() { std::cout.setstate(std::ios::failbit); int n = 0; FindAlpha(Vec({0.0}), Vec({1.0}), [&](Vec v) { if (++n > 500) std::exit(1); return Vec({(n % 4 < 2 ? 1 : 3) + (n % 2) * 0.5 + 0 * v[0]}); }, 1e-3); return 0; }\n',
      needs="a function on which the secant steps do not settle", breaks="the search does not end"),
]
