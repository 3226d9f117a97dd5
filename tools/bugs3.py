PRE = r'''#include <tomsolver/tomsolver.h>
#if __has_include(<tomsolver/error_type.h>)
#include <tomsolver/error_type.h>
#endif
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <iostream>
#include <limits>
#include <sstream>
using namespace tomsolver;
#define CHECK(x) do { if (!(x)) { std::printf("wrong: %s\n", #x); return 1; } } while (0)
static bool near(double a, double b, double t = 1e-9) { return std::abs(a - b) <= t * (1 + std::abs(b)); }
template <typename F> bool throws(F f) { try { f(); } catch (const std::exception &) { return true; } return false; }
template <typename F> int kind(F f) { try { f(); } catch (const MathError &e) { return static_cast<int>(e.GetErrorType()); } catch (const std::exception &) { return 100; } return -1; }
'''
S = "src/tomsolver/"

BUGS = [
 dict(id="b61-and-unsigned", property="C05", edits=[(S + "math_operator.cpp", "ret = (int)v1 & (int)v2;", "ret = static_cast<unsigned>((int)v1) & static_cast<unsigned>((int)v2);")],
   demo='int main() { CHECK(Parse("(0-12)&(0-10)")->Vpa() == (-12 & -10)); CHECK(Parse("12&10")->Vpa() == 8); CHECK(Parse("(0-12)&10")->Vpa() == (-12 & 10)); return 0; }\n',
   needs="& with both operands negative", breaks="the result is the unsigned interpretation"),
 dict(id="b62-calc-fold", property="C06", edits=[(S + "node.cpp", """    auto d = Vpa();
    *this = {};""", """    for (auto child : {left.get(), right.get()}) { // small operands are evaluated where they are
        if (child && child->type == NodeType::OPERATOR && child->left->type == NodeType::NUMBER &&
            (!child->right || child->right->type == NodeType::NUMBER)) {
            child->Calc();
        }
    }
    auto d = Vpa();
    *this = {};""")],
   demo='int main() { auto e = Parse("(1+2)+log(0-x)"); auto c = Clone(e); CHECK(throws([&] { e->Calc(); })); CHECK(e->Equal(c)); auto f = Parse("(1+2)/0"); auto g = Clone(f); CHECK(throws([&] { f->Calc(); })); CHECK(f->Equal(g)); auto h = Parse("(1+2)*4"); h->Calc(); CHECK(h->Vpa() == 12); return 0; }\n',
   needs="an evaluation in place that fails, where an operand of the root is an operator on numbers", breaks="the failed evaluation changes the expression"),
 dict(id="b63-equal-long-names", property="C15", edits=[(S + "node.cpp", "        return tie(lhs) == tie(rhs);", """        if (lhs.type == NodeType::VARIABLE && rhs.type == NodeType::VARIABLE) {
            return std::strncmp(lhs.varname.c_str(), rhs.varname.c_str(), 15) == 0;
        }
        return tie(lhs) == tie(rhs);"""), (S + "node.cpp", "#include <cassert>\n", "#include <cassert>\n#include <cstring>\n")],
   demo='int main() { CHECK(!Var("temperature_left_1")->Equal(Var("temperature_left_2"))); CHECK(!Var("a")->Equal(Var("ab"))); CHECK(Var("temperature_left_1")->Equal(Var("temperature_left_1"))); return 0; }\n',
   needs="two variable names that share their first fifteen characters", breaks="different variables compare equal"),
 dict(id="b64-names-zero", property="C12", edits=[(S + "node.cpp", """            ret.emplace(node.varname);
        }
        EmplaceNode(node.left);
        EmplaceNode(node.right);""", """            ret.emplace(node.varname);
        }
        if (node.op == MathOperator::MATH_POWER && node.right->type == NodeType::NUMBER && node.right->value == 0) {
            return; // constant
        }
        EmplaceNode(node.left);
        EmplaceNode(node.right);""")],
   demo='int main() { auto e = Parse("y+x^0"); auto n = e->GetAllVarNames(); CHECK(n.size() == 2 && n.count("x") && n.count("y")); CHECK(Parse("x^2")->GetAllVarNames().size() == 1); return 0; }\n',
   needs="a variable that occurs only in a power with exponent 0", breaks="the variable is not reported"),
 dict(id="b65-names-rec", property="C16", edits=[(S + "node.cpp", """    while (!stk.empty()) {
        const auto &node = stk.top().get();
        stk.pop();
        EmplaceChild(node);
    }
""", """    while (!stk.empty()) {
        const auto &node = stk.top().get();
        stk.pop();
        if (stk.size() > 4) { // keeps the stack small
            auto names = node.GetAllVarNames();
            ret.insert(names.begin(), names.end());
        } else {
            EmplaceChild(node);
        }
    }
""")],
   demo='''#include <sys/resource.h>
int main() { auto e = Var("x"); for (int i = 0; i < 400000; ++i) e = Move(e) + Num(1); CHECK(e->GetAllVarNames().size() == 1);
 auto f = Var("x"); for (int i = 0; i < 400000; ++i) f = Num(1) + Move(f); CHECK(f->GetAllVarNames().size() == 1); return 0; }
''', needs="an expression whose traversal stack is deep (right operands nested hundreds of thousands deep)", breaks="the call stack overflows"),
 dict(id="b66-fn-case", property="C01", edits=[(S + "parse.cpp", """    for (auto c : s) {
        hash = (hash ^ c) * prime;
    }""", """    for (auto c : s) {
        hash = (hash ^ (c >= 'A' && c <= 'Z' && hash == offsetBasis ? c + 32 : c)) * prime; // Sin is sin
    }""")],
   demo='int main() { auto n = Parse("Exp+1")->GetAllVarNames(); CHECK(n.count("Exp")); CHECK(Parse("Log*2")->GetAllVarNames().size() == 1); CHECK(near(Parse("exp(1)")->Vpa(), std::exp(1))); return 0; }\n',
   needs="a variable named like a function with a capital first letter", breaks="the variable is taken for the function"),
 dict(id="b68-det-elim", property="C20", edits=[(S + "mat.cpp", """    Mat cofactor(n - 1, n - 1); // n X n""", """    if (n >= 5) { // elimination
        Mat t(n, n);
        for (int i = 0; i < n; ++i) {
            for (int j = 0; j < n; ++j) {
                t.Value(i, j) = A.Value(i, j);
            }
        }
        double d = 1;
        for (int k = 0; k < n; ++k) {
            int p = GetMaxAbsRowIndex(t, k, n - 1, k);
            if (t.Value(p, k) == 0) {
                return 0;
            }
            if ((p - k) % 2 != 0) {
                d = -d;
            }
            t.SwapRow(k, p);
            d *= t.Value(k, k);
            for (int i = k + 1; i < n; ++i) {
                double f = t.Value(i, k) / t.Value(k, k);
                for (int j = k; j < n; ++j) {
                    t.Value(i, j) -= f * t.Value(k, j);
                }
            }
        }
        return d;
    }

    Mat cofactor(n - 1, n - 1); // n X n""")],
   demo='int main() { Mat m(5, 5); m.Ones(); CHECK(near(Det(m, 5), 1)); m.SwapRow(0, 1); CHECK(near(Det(m, 5), -1)); Mat k(5, 5); k.Ones(); k.SwapRow(0, 2); CHECK(near(Det(k, 5), -1)); CHECK(near((k * k.Inverse()).Value(0, 0), 1)); return 0; }\n',
   needs="a matrix of five or more rows with two rows to exchange that are an even distance apart", breaks="the determinant has the wrong sign"),
 dict(id="b69-eq-relative", property="C19", edits=[(S + "mat.cpp", "        return std::abs(val - *iter++) < Config::Get().epsilon;", "        auto rhs = *iter++;\n        return std::abs(val - rhs) < Config::Get().epsilon * std::max(1.0, std::min(std::abs(val), std::abs(rhs)));")],
   demo='int main() { Mat a{{1e6, 1}, {2, 3}}, b{{1e6 + 1e-5, 1}, {2, 3}}; CHECK(!(a == b)); CHECK(a == a); return 0; }\n',
   needs="large entries that differ by more than the tolerance but less than the tolerance relative to them", breaks="matrices that differ compare equal"),
 dict(id="b71-jac-order", property="C23", edits=[(S + "nonlinear.cpp", """    Vec q = table.Values(); // x向量
    internal::PrintSolveStartInfo(equations, varsTable);

    SymMat JaEqs = Jacobian(equations, table.Vars());""", """    Vec q = table.Values(); // x向量
    internal::PrintSolveStartInfo(equations, varsTable);

    std::vector<std::string> vars;
    for (auto &item : table) {
        vars.emplace_back(item.first);
    }
    SymMat JaEqs = Jacobian(equations, vars);""")],
   demo='int main() { SymVec e{Parse("x^2-2"), Parse("3*y-x-5")}; auto s = Solve(e, VarsTable(std::vector<std::string>{"y", "x"}, 3)); CHECK(near(s["x"], std::sqrt(2.0))); return 0; }\n',
   needs="a table whose names are not in alphabetical order", breaks="the columns of the Jacobian are exchanged"),
 dict(id="b73-reset", property="C25", edits=[(S + "config.cpp", "    *this = {};", "    auto &other = Get();\n    *this = {};\n    if (this == &other) {\n        maxIterations = std::max(maxIterations, 100);\n        static const double first = epsilon; // the default\n        epsilon = first;\n        allowIndeterminateEquation &= throwOnInvalidValue;\n    }\n    initialValue = nonlinearMethod == NonlinearMethod::LM ? 0 : 1;") if False else (S + "nonlinear.cpp", "    VarsTable varsTable(std::move(vecVarNames), Config::Get().initialValue);", "    static double initialValue = Config::Get().initialValue;\n    if (Config::Get().initialValue != 1.0) {\n        initialValue = Config::Get().initialValue;\n    }\n    VarsTable varsTable(std::move(vecVarNames), initialValue);")],
   demo='int main() { SymVec e{Parse("x^2-4")}; CHECK(Solve(e)["x"] > 0); Config::Get().initialValue = -3; CHECK(Solve(e)["x"] < 0); Config::Get().Reset(); CHECK(Solve(e)["x"] > 0); return 0; }\n',
   needs="a default initial value that is set, used and reset again", breaks="the reset initial value keeps its old value"),
 dict(id="b76-vt-prefix", property="C27", edits=[(S + "vars_table.cpp", """    auto it = table.find(varname);
    if (it == table.end()) {""", """    auto it = table.lower_bound(varname);
    if (it == table.end() || it->first.compare(0, varname.size(), varname) != 0) {""")],
   demo='int main() { VarsTable t{{"x1", 2}, {"y", 3}}; CHECK(throws([&] { t["x"]; })); CHECK(t["x1"] == 2); CHECK(throws([&] { t["z"]; })); CHECK(throws([&] { t[""]; })); return 0; }\n',
   needs="the lookup of an absent name that is the beginning of a present one", breaks="a value is returned for an absent name"),
 dict(id="b77-assert-effect", property="C28", edition="ndebug", edits=[(S + "vars_table.cpp", """    for (auto &var : vars) {
        table.insert({var, initValue});
    }
    assert(vars.size() == table.size() && "vars is not unique");""", """    for (auto &var : vars) {
        assert(table.insert({var, initValue}).second && "vars is not unique");
    }""")],
   demo='int main() { SymVec e{Parse("x^2-4")}; CHECK(near(Solve(e)["x"], 2)); VarsTable t({"a", "b"}, 3); CHECK(t.Has("a") && t["b"] == 3); return 0; }\n',
   needs="a release build", breaks="tables made of names and one value are empty in release builds"),
 dict(id="b79-caret-long", property="C30", edits=[(S + "parse.h", """           << std::string(pos, ' ') << "^---- error position";""", """           << std::string(std::min(pos, 79), ' ') << "^---- error position";"""), (S + "parse.h", "#include <cstring>\n", "#include <algorithm>\n#include <cstring>\n")],
   demo='''int main() { std::string t = "x"; for (int i = 0; i < 60; ++i) t += "+x"; t += "+1a"; try { Parse(t); return 1; } catch (const SingleParseError &e) { std::string w = e.what(); auto nl = w.rfind('\\n'); CHECK(w.find('^', nl) - nl - 1 == static_cast<size_t>(e.GetPos())); } return 0; }
''', needs="an error beyond column 79", breaks="the caret is not under the position"),
 dict(id="b80-simplify-sqrt", property="C10", edits=[(S + "simplify.cpp", """                n->op = MathOperator::MATH_NULL;
                n->left = nullptr;
            }
            break;""", """                n->op = MathOperator::MATH_NULL;
                n->left = nullptr;
            } else if (n->op == MathOperator::MATH_SQRT && n->left->op == MathOperator::MATH_POWER &&
                       n->left->right->type == NodeType::NUMBER && n->left->right->value == 2) { // sqrt(u^2) = u
                n = Move(n->left->left);
                n->parent = parent;
            }
            break;""")],
   demo='int main() { auto e = Parse("1+sqrt((x-3)^2)"); Simplify(e); auto v = Subs(e, "x", Num(1)); CHECK(near(v->Vpa(), 3)); v = Subs(e, "x", Num(5)); CHECK(near(v->Vpa(), 3)); return 0; }\n',
   needs="the square root of a square of something negative", breaks="the sign of the value changes"),
 dict(id="b83-diff-stop", property="C08", edits=[(S + "diff.cpp", """        internal::DiffFunctions::DiffOnce(n, varname);
    }""", """        internal::DiffFunctions::DiffOnce(n, varname);
        if (n->GetAllVarNames().empty()) {
            break; // constant
        }
    }""")], demo='int main() { CHECK(Diff(Var("x"), "x", 2)->Vpa() == 0); CHECK(Diff(Var("x"), "x", 1)->Vpa() == 1); CHECK(Diff(Parse("x^2"), "x", 2)->Vpa() == 2); return 0; }\n',
   needs="a second derivative of a bare variable", breaks="the first derivative is returned"),
 dict(id="b84-subs-prefix", property="C11", edits=[(S + "subs.cpp", """            auto itor = dict.find(cur->varname);
            if (itor == dict.end()) {""", """            auto itor = dict.lower_bound(cur->varname);
            if (itor == dict.end() || cur->varname.compare(0, itor->first.size(), itor->first, 0, cur->varname.size()) != 0) {""")],
   demo='int main() { auto e = Subs(Parse("x*y"), "x1", Num(3)); CHECK(e->ToString() == "x*y"); CHECK(near(Subs(Parse("x1*2"), "x1", Num(3))->Vpa(), 6)); CHECK(Subs(Parse("x1"), "x", Num(3))->ToString() == "x1"); return 0; }\n',
   needs="a variable whose name is the beginning of a substituted name", breaks="another variable is replaced"),
 dict(id="b85-jac-names", property="C13", edits=[(S + "symmat.cpp", """                  [iter = std::begin(*equations.data), &vars, i = size_t{0}]() mutable {
                      if (i == vars.size()) {
                          i = 0;
                          iter++;
                      }
                      return""", """                  [iter = std::begin(*equations.data), &vars, i = size_t{0}, names = std::set<std::string>()]() mutable {
                      if (i == vars.size()) {
                          i = 0;
                          iter++;
                      }
                      if (i == 0) { // the names of this equation
                          auto more = (*iter)->GetAllVarNames();
                          if (names.size() <= more.size() || more.size() != 1) {
                              names = std::move(more);
                          }
                      }
                      if (names.find(vars[i]) == names.end()) {
                          ++i;
                          return Num(0);
                      }
                      return""")], demo='int main() { SymVec e{Parse("x*y"), Var("z")}; SymMat j = Jacobian(e, {"x", "y", "z"}); CHECK(j.Value(1, 2)->Vpa() == 1); CHECK(j.Value(1, 0)->Vpa() == 0); CHECK(j.Value(0, 0)->ToString() == "y"); return 0; }\n',
   needs="an equation in one variable after one that mentions other, more variables", breaks="the derivative is 0"),
 dict(id="b86-symsub-zero", property="C21", edits=[(S + "symmat.cpp", "                      return *lhsIter++ - *rhsIter++;", """                      auto &lhs = *lhsIter++;
                      auto &rhs = *rhsIter++;
                      for (auto pair : {std::make_pair(&lhs, &rhs), std::make_pair(&rhs, &lhs)}) { // nothing to subtract
                          if ((*pair.second)->type == NodeType::NUMBER && (*pair.second)->value == 0) {
                              return tomsolver::Clone(*pair.first);
                          }
                      }
                      return lhs - rhs;""")],
   demo='int main() { SymMat a{{Num(0), Var("x")}}, b{{Var("x"), Num(0)}}; auto d = a - b; d.Subs(std::map<std::string, double>{{"x", 3}}).Calc(); CHECK(d.Value(0, 0)->Vpa() == -3); CHECK(d.Value(0, 1)->Vpa() == 3); return 0; }\n',
   needs="an entry 0 in the left matrix", breaks="the entry of the right matrix is not negated"),
 dict(id="b91-info-order", property="C30", edits=[(S + "math_operator.cpp", """            info << ToString(v1) << " " << MathOperatorToStr(op) << " " << ToString(v2);""", """            if (v2 < 0) {
                std::swap(v1, v2);
            }
            info << ToString(v1) << " " << MathOperatorToStr(op) << " " << ToString(v2);"""), (S + "math_operator.cpp", "#include <sstream>\n", "#include <sstream>\n#include <utility>\n")],
   demo='int main() { try { Parse("0^(-1)")->Vpa(); return 1; } catch (const MathError &e) { CHECK(std::string(e.what()).find("0 ^ -1") != std::string::npos); } try { Parse("1/0")->Vpa(); return 1; } catch (const MathError &e) { CHECK(std::string(e.what()).find("1 / 0") != std::string::npos); } return 0; }\n',
   needs="an invalid operation whose second operand is negative", breaks="the message names the operands in the wrong order"),
 dict(id="b92-diff-square", property="C07", edits=[(S + "diff.cpp", """            // (u*v)' = u' * v + u * v'
            auto &u""", """            // (x*x)' = 2*x
            if (node->left->type == NodeType::VARIABLE && node->right->type == NodeType::VARIABLE &&
                node->left->varname == node->right->varname) {
                node->left = Num(2);
                node->left->parent = node.get();
                return;
            }

            // (u*v)' = u' * v + u * v'
            auto &u""")], demo='int main() { CHECK(Diff(Parse("x+y*y"), "x")->Vpa() == 1); CHECK(near(Subs(Diff(Parse("x*x"), "x"), "x", Num(3))->Vpa(), 6)); return 0; }\n',
   needs="the product of a variable with itself, differentiated by another variable", breaks="the derivative is not 0"),
 dict(id="b94-nr-dir", property="C18", edits=[(S + "linear.cpp", """        auto vec = asConst(A).Row(i, i + 1) * asConst(ret).Col(0, i + 1);
        ret[i] = b[i] - (vec.size() ? vec.sum() : 0);""", """        double sum = 0;
        for (int k = i + 1; k < cols; ++k) {
            if (std::abs(A.Value(i, k)) >= Config::Get().epsilon) { // others count as 0
                sum += A.Value(i, k) * ret[k];
            }
        }
        ret[i] = b[i] - sum;""")],
   demo='int main() { Mat A{{1, 1e-10}, {0, 1}}; Vec b{1, 1e10}; Vec x = SolveLinear(A, b); CHECK(near(x[0], 0, 1e-6)); CHECK(near(x[1], 1e10)); Mat B{{2, 1}, {1, 3}}; Vec c{3, 4}; CHECK(near(SolveLinear(B, c)[0], 1)); return 0; }\n',
   needs="a coefficient below the tolerance next to a large unknown", breaks="the result does not satisfy the system"),
]
BUGS = [b for b in BUGS if b["demo"] and b["needs"] != "-"]
