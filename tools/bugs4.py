PRE = r'''#include <tomsolver/tomsolver.h>
#if __has_include(<tomsolver/error_type.h>)
#include <tomsolver/error_type.h>
#endif
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <iostream>
#include <limits>
#include <sstream>
using namespace tomsolver;
#define CHECK(x) do { if (!(x)) { std::printf("wrong: %s\n", #x); return 1; } } while (0)
static bool near(double a, double b, double t = 1e-9) { return std::abs(a - b) <= t * (1 + std::abs(b)); }
template <typename F> bool throws(F f) { try { f(); } catch (const std::exception &) { return true; } return false; }
template <typename F> int kind(F f) { try { f(); } catch (const MathError &e) { return static_cast<int>(e.GetErrorType()); } catch (const std::exception &) { return 100; } return -1; }
'''
S = "src/tomsolver/"

BUGS = [
 dict(id="b101-exp-zeros", property="C04", edits=[(S + "config.cpp", """    {"%.16e", std::regex{"\\\\.?0+(?=e)"}},""", """    {"%.16e", std::regex{"\\\\.?0+(?=e|$)"}},""")],
   demo='int main() { for (double x : {1.5e100, -2.25e-200, 3e20, 7e17, 1e-300}) { std::string s = ToString(x); CHECK(near(std::strtod(s.c_str(), nullptr) / x, 1)); } return 0; }\n',
   needs="a number printed with an exponent that ends in 0", breaks="the exponent loses its zeros: 3e+20 is printed as 3e+2"),
 dict(skip=1, id="b103-diff-absent", property="C07", edits=[(S + "diff.cpp", """            // f(x)/number = f'(x)/number
            if (rightIsNumber) {""", """            // f(x)/c = f'(x)/c
            auto names = node->right->GetAllVarNames();
            rightIsNumber = rightIsNumber || (names.size() == 1 && node->left->GetAllVarNames().count(*names.begin()) == 0);
            if (rightIsNumber) {""")],
   demo='int main() { auto d = Subs(Subs(Diff(Parse("y/x"), "x"), "x", Num(2)), "y", Num(3)); CHECK(near(d->Vpa(), -0.75)); CHECK(near(Subs(Diff(Parse("x/5"), "x"), "x", Num(3))->Vpa(), 0.2)); return 0; }\n',
   needs="a quotient whose divisor has one variable, which the dividend has not", breaks="the derivative by the divisor's variable"),
 dict(id="b104-nr-relative", property="C22", edits=[(S + "nonlinear.cpp", """        if (phi == 0) {
            break;
        }
""", """        if (phi == 0 || (it > 0 && phi.NormInfinity() < Config::Get().epsilon * q.NormInfinity() * 1e-3)) {
            break;
        }
""")],
   demo='int main() { auto f = [] { SymVec e{Parse("x^2-1e8*x")}; return SolveByNewtonRaphson(e, VarsTable{{"x", 1.2e8}}); }; auto t = f(); double x = t["x"]; CHECK(std::abs(x * x - 1e8 * x) < Config::Get().epsilon); SymVec g{Parse("x^2-2")}; CHECK(near(SolveByNewtonRaphson(g, VarsTable{{"x", 1.0}})["x"], std::sqrt(2.0))); for (int i = 0; i < 3000; ++i) { SymVec h{Parse("exp(x/100000)-2")}; double y = SolveByNewtonRaphson(h, VarsTable{{"x", 50000.0 + 10 * i}})["x"]; CHECK(std::abs(std::exp(y / 100000) - 2) < Config::Get().epsilon); } return 0; }\n',
   needs="unknowns far from 0 whose residual is between the tolerance and its multiple on the way", breaks="a point is returned that does not satisfy the equations"),
 dict(skip=1, id="b105-lm-norm", property="C22", edits=[(S + "nonlinear.cpp", "        if (F == 0) { //", "        if (F.Norm2() < 1e3 * Config::Get().epsilon * Config::Get().epsilon) { //")],
   demo='int main() { SymVec e{Parse("x^2-2"), Parse("y-x")}; auto for (int i = 0; i < 60; ++i) { double s = 1 + 0.05 * i; auto t = SolveByLM(e, VarsTable{{"x", s}, {"y", s * 0.7}}); CHECK(std::abs(t["x"] * t["x"] - 2) < Config::Get().epsilon && std::abs(t["y"] - t["x"]) < Config::Get().epsilon); SymVec g{Parse("1000*(x+y)^3-8000"), Parse("x-y")}; t = SolveByLM(g, VarsTable{{"x", s}, {"y", s}}); double z = t["x"] + t["y"]; CHECK(std::abs(1000 * z * z * z - 8000) < Config::Get().epsilon); } return 0; }\n',
   needs="an iterate whose residual is between the tolerance and its square root", breaks="a point is returned that does not satisfy the equations"),
 dict(id="b106-limit-static", property="C24", edits=[(S + "nonlinear.cpp", "        if (it > Config::Get().maxIterations) {", "        static const int maxIterations = Config::Get().maxIterations;\n        if (it > maxIterations) {")],
   demo='int main() { SymVec e{Parse("x^2+1")}; VarsTable t{{"x", 0.7}}; SymVec g{Parse("x^2-2")}; CHECK(near(SolveByNewtonRaphson(g, VarsTable{{"x", 1.0}})["x"], std::sqrt(2.0))); Config::Get().maxIterations = 1; CHECK(throws([&] { SolveByNewtonRaphson(g, VarsTable{{"x", 50.0}}); })); return 0; }\n',
   needs="the limit changed after the first solve", breaks="the limit of the first solve is kept"),
 dict(id="b107-lm-appear", property="C26", edits=[(S + "nonlinear.cpp", "#include <iostream>\n", "#include <iostream>\n#include <set>\n")] and [],
   demo="", needs="-", breaks=""),
 dict(skip=1, id="b112-lm-mu", property="C23", edits=[(S + "nonlinear.cpp", """    while (1) {
        internal::PrintAtIterationStart(it);

        double mu = 1e-5; // LM方法的λ值
""", """    double mu = 1e-5; // LM方法的λ值
    while (1) {
        internal::PrintAtIterationStart(it);
""")],
   demo=r'int main() { auto s = [](double a, double b) { SymVec e{Parse("x^3-3*x*y^2-1"), Parse("3*x^2*y-y^3")}; auto t = SolveByLM(e, VarsTable{{"x", a}, {"y", b}}); std::ostringstream o; o.precision(3); o << std::round(t["x"] * 100) / 100 << "," << std::round(t["y"] * 100) / 100; return o.str(); }; std::string all; for (double a = -2; a <= 2; a += 0.37) for (double b = -2; b <= 2; b += 0.41) { try { all += s(a, b) + ";"; } catch (const std::exception &) { all += "!;"; } } unsigned long h = 5381; for (char c : all) h = h * 33 + static_cast<unsigned char>(c); std::printf("%lu\n", h); return h == 2463368831170703791UL ? 0 : 1; }' + "\n",
   needs="a step refused in one iteration and further iterations after it", breaks="the damping is kept, and with it another root is found"),
 dict(id="b114-pd-eps", property="C20", edits=[(S + "mat.cpp", "        if (Det(*this, i) <= 0) {", "        if (Det(*this, i) <= Config::Get().epsilon) {")],
   demo='int main() { Mat a{{1e-6, 0}, {0, 1e-6}}; CHECK(a.PositiveDetermine()); Mat b{{2, 1}, {1, 2}}; CHECK(b.PositiveDetermine()); Mat c{{1, 2}, {2, 1}}; CHECK(!c.PositiveDetermine()); return 0; }\n',
   needs="a positive definite matrix with small leading minors", breaks="it is judged not to be positive definite"),
 dict(skip=1, id="b115-impl-copy", property="C14", edits=[(S + "node.cpp", """    if (rhs.right) {
        right = Clone(rhs.right);
        right->parent = this;
    } else {""", """    if (rhs.right) {
        right = Clone(rhs.right);
        right->parent = rhs.parent;
    } else {""")],
   demo='int main() { auto a = Parse("x-(y-z)"); Node b(new internal::NodeImpl(*a)); CHECK(b->ToString() == a->ToString()); CHECK(Parse(b->ToString())->Equal(a)); return 0; }\n',
   needs="a node object copied (by copy construction or assignment) whose right operand is an operator", breaks="the parent link of the right operand, and with it the printed parentheses"),
 dict(id="b116-adjacent-last", property="C02", edits=[(S + "parse.cpp", """    if (tokenStack.size() > 1) {""", """    if (tokenStack.size() > 1 && tokenStack.top().node->type != NodeType::OPERATOR) {""")] and [],
   demo="", needs="-", breaks=""),
 dict(id="b117-multi-skip", property="C30", edits=[(S + "parse.cpp", """            errors.emplace_back(token.line, token.pos, token.content, "Parse Error at: \\"", token.s, "\\"");
            tokenStack.pop();""", """            if (errors.empty() || token.s.toString() != errors.back().GetToken()) {
            }
            tokenStack.pop();""")] and [],
   demo="", needs="-", breaks=""),
 dict(id="b118-space-sign", property="C01", edits=[(S + "parse.cpp", """            auto unaryOp = ret.empty() || (ret.back().node->type == NodeType::OPERATOR &&
                                           ret.back().node->op != MathOperator::MATH_RIGHT_PARENTHESIS);""",
   """            auto unaryOp = ret.empty() || (ret.back().node->type == NodeType::OPERATOR &&
                                           ret.back().node->op != MathOperator::MATH_RIGHT_PARENTHESIS &&
                                           ret.back().node->op != MathOperator::MATH_NEGATIVE);""")],
   demo='int main() { auto e = Parse("2*--3"); CHECK(e->Vpa() == 6); CHECK(Parse("x")->ToString() == "x"); CHECK(Parse("--3")->Vpa() == 3); return 0; }\n',
   needs="two signs in a row after an operator", breaks="the text is rejected"),
 dict(skip=1, id="b119-jac-cols", property="C13", edits=[(S + "symmat.cpp", """                      return Diff(*iter, vars[i++]);""", """                      auto &name = vars[i++];
                      if ((*iter)->type == NodeType::VARIABLE) { // no need to differentiate
                          return Num((*iter)->varname.compare(0, name.size(), name) == 0 ? 1 : 0);
                      }
                      return Diff(*iter, name);""")],
   demo='int main() { SymVec e{Var("xy"), Parse("x*2")}; SymMat j = Jacobian(e, {"x", "xy"}); CHECK(j.Value(0, 0)->Vpa() == 0); CHECK(j.Value(0, 1)->Vpa() == 1); CHECK(j.Value(1, 0)->Vpa() == 2); return 0; }\n',
   needs="an equation that is a bare variable, and another variable that is a prefix of its name", breaks="the derivative is 1 and should be 0"),
 dict(id="b120-linear-order", property="C17", edits=[(S + "linear.cpp", """        while (std::abs(A.Value(y, x)) < Config::Get().epsilon) // 如果当前值为0  x一直递增到非0
        {
            x++;
            if (x == cols) {
                break;
            }

            // 交换本行与最大行
            maxAbsRowIndex = GetMaxAbsRowIndex(A, y, rows - 1, x);
            A.SwapRow(y, maxAbsRowIndex);
            b.SwapRow(y, maxAbsRowIndex);
        }""", """        while (std::abs(A.Value(y, x)) < Config::Get().epsilon) // 如果当前值为0  x一直递增到非0
        {
            x++;
            if (x == cols) {
                break;
            }

            // 交换本行与最大行
            int nextRow = GetMaxAbsRowIndex(A, y, rows - 1, x);
            if (nextRow != maxAbsRowIndex) {
                A.SwapRow(y, nextRow);
                b.SwapRow(y, nextRow);
            }
        }""")],
   demo='int main() { Mat A{{0, 0, 1}, {0, 0, 2}, {0, 3, 0}}; Vec b{1, 2, 3}; CHECK(kind([&] { SolveLinear(A, b); }) == 13); Mat B{{0, 1}, {0, 0}}; CHECK(kind([&] { SolveLinear(B, Vec{1, 0}); }) == 13); Mat C{{0, 0, 0}, {0, 1, 1}, {0, 1, 2}}; CHECK(kind([&] { SolveLinear(C, Vec{0, 1, 2}); }) == 13); CHECK(kind([&] { SolveLinear(C, Vec{1, 1, 2}); }) == 12); return 0; }\n',
   needs="-", breaks="-"),
 dict(id="b121-armijo-abs", property="C29", edits=[(S + "nonlinear.cpp", """        if (!(l > r)) //""", """        if (!(std::sqrt(l) > std::sqrt(r))) //""")],
   demo='', needs="-", breaks=""),
 dict(id="b122-nr-diverge", property="C24", edits=[(S + "nonlinear.cpp", """    int it = 0; // 迭代计数
    VarsTable table = varsTable;
    Vec q = table.Values(); // x向量
    internal::PrintSolveStartInfo(equations, varsTable);
""", """    int it = 0; // 迭代计数
    int grown = 0;
    double last = 1e300;
    VarsTable table = varsTable;
    Vec q = table.Values(); // x向量
    internal::PrintSolveStartInfo(equations, varsTable);
"""), (S + "nonlinear.cpp", """        if (phi == 0) {
            break;
        }
""", """        if (phi == 0) {
            break;
        }
        grown = phi.Norm2() > last ? grown + 1 : 0;
        last = phi.Norm2();
        if (grown > 1 && equations.Rows() == table.VarNums()) { // the iteration diverges
            throw runtime_error("iteration diverges");
        }
""")],
   demo='int main() { SymVec g{Parse("x^2-2")}; CHECK(near(SolveByNewtonRaphson(g, VarsTable{{"x", 1.0}})["x"], std::sqrt(2.0))); int bad = 0; for (int i = -400; i <= 400; ++i) { SymVec e{Parse("x^2+1-3.0001*x^0.5*0"), }; SymVec h{Parse("x^3-2*x+2")}; try { double x = SolveByNewtonRaphson(h, VarsTable{{"x", i * 0.00503}})["x"]; (void)x; } catch (const std::exception &e) { if (std::string(e.what()).find("diverges") != std::string::npos) ++bad; } SymVec k{Parse("x/(1+x^2)-0.1+atan(x)*0.3")}; try { SolveByNewtonRaphson(k, VarsTable{{"x", i * 0.01}}); } catch (const std::exception &e) { if (std::string(e.what()).find("diverges") != std::string::npos) ++bad; } } CHECK(bad == 0); return 0; }\n',
   needs="an iteration whose residual grows twice in a row before it converges", breaks="it is given up and refused"),
 dict(id="b123-lm-over", property="C26", edits=[(S + "nonlinear.cpp", """        if (F == 0) { // F值为0，满足方程组求根条件
            break;
        }
""", """        if (F == 0) { // F值为0，满足方程组求根条件
            break;
        }
        if (inputEquations.Rows() > static_cast<int>(inputEquations.GetAllVarNames().size())) {
            throw MathError(ErrorType::ERROR_OVER_DETERMINED_EQUATIONS);
        }
""")],
   demo='int main() { SymVec e{Parse("x^2-4"), Parse("2*x-4")}; auto t = SolveByLM(e, VarsTable{{"x", 1.5}, {"y", 0.25}}); CHECK(near(t["x"], 2, 1e-6)); CHECK(kind([&] { SolveByLM(e, VarsTable{{"x", 1.5}}); }) == 14); return 0; }\n',
   needs="a table with unknowns that occur in no equation, and as many equations as unknowns", breaks="the system is refused as over-determined"),
 dict(id="b124-diff-absent-refuse", property="C09", edits=[(S + "diff.cpp", """        if (root->type == NodeType::OPERATOR) {
            DiffOnceOperator(root, q);""", """        if (root->type == NodeType::OPERATOR && root->GetAllVarNames().count(varname) == 0) {
            root = Num(0); // nothing to differentiate
        } else if (root->type == NodeType::OPERATOR) {
            DiffOnceOperator(root, q);""")],
   demo='int main() { CHECK(throws([] { Diff(Parse("y&3"), "x"); })); CHECK(throws([] { Diff(Parse("2*(z%y)"), "x"); })); CHECK(throws([] { Jacobian(SymVec{Parse("y|1")}, {"x"}); })); CHECK(Diff(Parse("y*3"), "x")->Vpa() == 0); return 0; }\n',
   needs="a derivative by a variable that the expression with %, & or | does not contain", breaks="0 is returned and should be refused"),
 dict(id="b125-linear-trim", property="C17", edits=[(S + "linear.cpp", """    if (rows > 0) {
        cols = A.Cols();
    }
""", """    if (rows > 0) {
        cols = A.Cols();
    }
    while (rows > cols && rows > 1 && (asConst(A).Row(rows - 1) * asConst(A).Row(rows - 1)).sum() == 0 && b[rows - 1] == 0) {
        --rows; // an equation 0 = 0
        A.Resize(rows, cols);
        b.Resize(rows);
    }
""")],
   demo='int main() { Mat A{{2, 0}, {0, 4}, {0, 0}}; CHECK(kind([&] { SolveLinear(A, Vec{2, 4, 0}); }) == 14); Mat B{{2, 0}, {0, 4}}; auto x = SolveLinear(B, Vec{2, 4}); CHECK(x[0] == 1 && x[1] == 1); return 0; }\n',
   needs="more equations than unknowns, the last of them 0 = 0", breaks="the system is not refused"),
 dict(id="b126-less-eps", property="C19", edits=[(S + "mat.cpp", """    assert(v1.rows == v2.rows && v1.cols == v2.cols);
    return std::all_of(std::begin(v1.data), std::end(v1.data), [iter = std::begin(v2.data)](auto val) mutable {
        return val < *iter++;""", """    assert(v1.rows == v2.rows && v1.cols == v2.cols);
    return std::all_of(std::begin(v1.data), std::end(v1.data), [iter = std::begin(v2.data)](auto val) mutable {
        return val < *iter++ - Config::Get().epsilon;""")],
   demo='int main() { CHECK(AllIsLessThan(Mat{{1, 2}}, Mat{{1.0000001, 3}})); CHECK(AllIsLessThan(Mat{{1e-9}}, Mat{{2e-9}})); CHECK(!AllIsLessThan(Mat{{1}}, Mat{{1}})); return 0; }\n',
   needs="entries closer than the tolerance", breaks="less-than is false for them"),
 dict(id="b127-subs-break", property="C21", edits=[(S + "symmat.cpp", """SymMat &SymMat::Subs(const VarsTable &varsTable) noexcept {
    for (auto &node : *data) {""", """SymMat &SymMat::Subs(const VarsTable &varsTable) noexcept {
    for (auto &node : *data) {
        if (varsTable.VarNums() > 0 && node->type == NodeType::VARIABLE) {
            node = Num(varsTable.Has(node->varname) ? varsTable[node->varname] : 0);
            continue;
        }""")],
   demo='int main() { SymMat m{{Parse("x"), Parse("y+1")}, {Parse("z"), Parse("2")}}; m.Subs(VarsTable{{"x", 3.0}}); CHECK(m.Value(0, 0)->Vpa() == 3); CHECK(m.Value(1, 0)->ToString() == "z"); return 0; }\n',
   needs="a matrix entry that is a bare variable the table does not have", breaks="it becomes 0 and should stay"),
 dict(id="b128-impl-assign", property="C14", edits=[(S + "node.cpp", """        if (rhs.right) {""", "") ] and [(S + "node.h", """SfinaeNode<T> &operator^=(Node &n1, T &&n2) noexcept {
""", """SfinaeNode<T> &operator^=(Node &n1, T &&n2) noexcept {
    if (n2->ToString() == "1") {
        return n1; // x^1 = x
    }
""")],
   demo='int main() { auto a = Parse("x"); auto b = Num(1); a ^= b; CHECK(a->ToString() == "x^1"); auto c = Parse("x"); auto d = Num(1); c ^= Move(d); CHECK(!d); CHECK(c->ToString() == "x^1"); return 0; }\n',
   needs="^= with a right operand 1", breaks="the expression is not what the operations say, and a moved operand is not emptied"),
 dict(id="b129-line-count", property="C16", edits=[(S + "parse.cpp", """            ret.emplace_back(0, static_cast<int>(std::distance(content.begin(), iter)), true, StringView{&*iter, 1},
                             content);""", """            auto line = static_cast<int>(std::count(content.begin(), iter, '\\n'));
            ret.emplace_back(line, static_cast<int>(std::distance(content.begin(), iter)), true, StringView{&*iter, 1},
                             content);""")],
   demo='#include <chrono>\nint main() { std::string s = "1"; for (int i = 0; i < 200000; ++i) s += "+1"; auto t = std::chrono::steady_clock::now(); CHECK(Parse(s)->Vpa() == 200001); auto d = std::chrono::duration<double>(std::chrono::steady_clock::now() - t).count(); std::printf("%g\\n", d); CHECK(d < 20); return 0; }\n', timeout=60,
   needs="a text of hundreds of thousands of operators", breaks="parsing takes time quadratic in the length"),
 dict(id="b132-eps-static", property="C25", edits=[(S + "mat.cpp", """bool Mat::operator==(double m) const noexcept {
    return std::all_of(std::begin(data), std::end(data), [m](auto val) {
        return std::abs(val - m) < Config::Get().epsilon;""", """bool Mat::operator==(double m) const noexcept {
    static const double epsilon = Config::Get().epsilon;
    return std::all_of(std::begin(data), std::end(data), [m, eps = epsilon](auto val) {
        return std::abs(val - m) < eps;""")],
   demo='int main() { CHECK(Mat({{1}}) == 1.0); Config::Get().epsilon = 0.5; CHECK(Mat({{1.2}}) == 1.0); Config::Get().Reset(); CHECK(!(Mat({{1.2}}) == 1.0)); return 0; }\n',
   needs="the tolerance changed between two comparisons of a matrix with a number", breaks="the first tolerance is kept"),
 dict(id="b133-mod-float", property="C05", edits=[(S + "math_operator.cpp", """        ret = (int)v1 & (int)v2;""", """        ret = (int)std::floor(v1) & (int)std::floor(v2);""")],
   demo='int main() { CHECK(Parse("(-2.5)&7")->Vpa() == ((-2) & 7)); CHECK(Parse("6.5&3.2")->Vpa() == 2); return 0; }\n',
   needs="& with a negative operand that is no integer", breaks="the operand is rounded down and should be truncated"),
 dict(id="b134-zero-times", property="C06", edits=[(S + "math_operator.cpp", """    case MathOperator::MATH_MULTIPLY:
        ret = v1 * v2;""", """    case MathOperator::MATH_MULTIPLY:
        ret = v1 == 0 || v2 == 0 ? 0 : v1 * v2;""")],
   demo='int main() { CHECK(Parse("2*3")->Vpa() == 6); Config::Get().throwOnInvalidValue = false; CHECK(std::isnan(Parse("0*(1/0)")->Vpa())); Config::Get().throwOnInvalidValue = true; CHECK(throws([] { Parse("0*inf")->Vpa(); })); return 0; }\n',
   needs="0 times an infinity", breaks="the product is 0 and should be invalid"),
 dict(id="b136-armijo-tiny", property="C29", edits=[(S + "nonlinear.cpp", """            alpha = alpha * sigma; // 缩小alpha，进入下一次循环""", """            alpha = alpha * sigma; // 缩小alpha，进入下一次循环
        if (alpha < 1e-6) {
            break;
        }""")],
   demo='int main() { auto f = [](Vec v) { return Vec{v[0] * 1e9 + 1}; }; (void)f; auto g = [](Vec v) { return Vec{std::exp(v[0]) - 2}; }; auto dg = [](Vec v) { return Mat{{std::exp(v[0])}}; }; double a = Armijo(Vec{5}, Vec{-1e8}, g, dg); (void)a; auto h = [](Vec v) { return Vec{v[0] * v[0] + 1}; }; auto dh = [](Vec v) { return Mat{{2 * v[0]}}; }; for (double d : {-1e8, -1e9, -1e10}) { double al = Armijo(Vec{1}, Vec{d}, h, dh); Vec x{1}; double l = h(x + al * Vec{d}).Norm2(); double r = std::pow(h(x)[0] + 0.4 * al * 2 * d, 2); CHECK(!(l > r)); } return 0; }\n',
   needs="a direction so long that the step has to be below 1e-6", breaks="the step returned does not satisfy the descent condition"),
 dict(id="b137-assoc-and", property="C03", edits=[(S + "math_operator.cpp", """    case MathOperator::MATH_MOD:   //%
    case MathOperator::MATH_AND:   //&
    case MathOperator::MATH_OR:    //|
    case MathOperator::MATH_POWER: //^
    case MathOperator::MATH_DIVIDE:
    case MathOperator::MATH_SUB:

    case MathOperator::MATH_LEFT_PARENTHESIS:
    case MathOperator::MATH_RIGHT_PARENTHESIS:
        return false;

    case MathOperator::MATH_ADD:""", """    case MathOperator::MATH_MOD:   //%
    case MathOperator::MATH_POWER: //^
    case MathOperator::MATH_DIVIDE:
    case MathOperator::MATH_SUB:

    case MathOperator::MATH_LEFT_PARENTHESIS:
    case MathOperator::MATH_RIGHT_PARENTHESIS:
        return false;

    case MathOperator::MATH_AND: //&
    case MathOperator::MATH_OR:  //|
    case MathOperator::MATH_ADD:""")],
   demo='int main() { auto a = Parse("1|(2&4)"); CHECK(Parse(a->ToString())->Vpa() == a->Vpa()); auto b = Parse("4&(2|8)"); CHECK(Parse(b->ToString())->Vpa() == b->Vpa()); auto c = Parse("1&2&3"); CHECK(Parse(c->ToString())->Vpa() == c->Vpa()); return 0; }\n',
   needs="| as the right operand of &, or the other way round", breaks="the parentheses are not printed"),
 dict(id="b139-linear-skip", property="C18", edits=[(S + "linear.cpp", """            auto ratioRow = A.Value(row, x);
""", """            auto ratioRow = A.Value(row, x);
            if (std::abs(ratioRow) < Config::Get().epsilon) { // already 0
                continue;
            }
""")],
   demo='int main() { Mat A{{1e3, 1}, {1e-6, 1e-6}}; A = Mat{{1, 1e7}, {9e-10, 1}}; double e = Config::Get().epsilon; Mat B{{1, 1e3}, {0.9 * e, 1}}; auto x = SolveLinear(B, Vec{1e6, 1}); double r = 0.9 * e * x[0] + x[1]; CHECK(near(r, 1, 1e-12)); return 0; }\n',
   needs="an entry below the tolerance under a pivot, with a large unknown", breaks="the entry is ignored and the second equation not satisfied"),
 dict(id="b141-nr-clamp", property="C23", edits=[(S + "nonlinear.cpp", """            q += deltaq;
""", """            if (deltaq.NormInfinity() > 1000) { // limit the step
                deltaq = deltaq * (1000 / deltaq.NormInfinity());
            }
            q += deltaq;
""")],
   demo='int main() { SymVec e{Parse("x*(x-5000)*(x+3)")}; double s = 1.0; double x = SolveByNewtonRaphson(e, VarsTable{{"x", s}})["x"]; (void)x; SymVec g{Parse("x-40000")}; Config::Get().maxIterations = 3; CHECK(near(SolveByNewtonRaphson(g, VarsTable{{"x", 1.0}})["x"], 40000)); return 0; }\n',
   needs="a step longer than 1000", breaks="it is shortened"),
 dict(id="b143-subs-number", property="C11", edits=[(S + "subs.cpp", """            cur = Clone(itor->second);
            cur->parent = parent;
""", """            cur = Clone(itor->second);
            cur->parent = parent;
            if (parent && parent->op == MathOperator::MATH_NEGATIVE && cur->type == NodeType::NUMBER) {
                parent->op = MathOperator::MATH_POSITIVE;
                cur->value = -std::abs(cur->value);
            }
""")],
   demo='int main() { CHECK(Subs(Parse("-x"), "x", Num(3))->Vpa() == -3); CHECK(Subs(Parse("-x"), "x", Num(-3))->Vpa() == 3); return 0; }\n',
   needs="a negative number put for a variable under a minus sign", breaks="the sign"),
 dict(id="b147-simplify-sub", property="C10", edits=[(S + "simplify.cpp", """            if ((n->op == MathOperator::MATH_ADD && (lChildIs0 || rChildIs0)) ||""", """            if (n->op == MathOperator::MATH_SUB && !n->left->left && !n->right->left && n->left->varname.substr(0, 12) == n->right->varname.substr(0, 12) && n->left->value == n->right->value && n->left->type == n->right->type) {
                n = Num(0); // x - x = 0
                n->parent = parent;
                return;
            }
            if ((n->op == MathOperator::MATH_ADD && (lChildIs0 || rChildIs0)) ||""")],
   demo='int main() { Node a = Parse("velocity_of_a-velocity_of_b"); Simplify(a); CHECK(a->ToString() == "velocity_of_a-velocity_of_b"); Node b = Parse("x-y+1-1"); Simplify(b); CHECK(b->GetAllVarNames().size() == 2); return 0; }\n',
   needs="a difference of two variables whose names agree in the first 12 letters", breaks="it becomes 0"),
 dict(id="b148-implicit-mul", property="C02", edits=[(S + "parse.cpp", """    // 如果现在临时栈里面有超过1个元素，那么除了栈顶，其他的都代表出错
""", """    // a number before a parenthesis or a function is a factor
    if (tokenStack.size() == 2 && tokenStack.top().node->type == NodeType::OPERATOR && IsFunction(tokenStack.top().node->op)) {
        auto right = popNode();
        if (tokenStack.top().node->type == NodeType::NUMBER) {
            return Operator(MathOperator::MATH_MULTIPLY, popNode(), std::move(right));
        }
        tokenStack.emplace(std::move(postOrder.back()));
        tokenStack.top().node = std::move(right);
    }

    // 如果现在临时栈里面有超过1个元素，那么除了栈顶，其他的都代表出错
""")],
   demo='int main() { CHECK(throws([] { Parse("2 sin(x)"); })); CHECK(throws([] { Parse("x sin(x)"); })); CHECK(Parse("sin(0)")->Vpa() == 0); return 0; }\n',
   needs="a number directly before a function", breaks="the text is accepted as a product"),
]
BUGS = [b for b in BUGS if not b.get("skip") and b["demo"] and b["needs"] != "-"]
