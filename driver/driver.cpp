// Replays commands (one JSON object per line) against the public interface of tomsolver and writes one event per
// command: the command itself plus what was observed ("out"). No property is judged here; the events are checked
// against the TLA+ specification (spec/Trace.tla).
#include <tomsolver/tomsolver.h>
#ifdef TS_LIBRARY
#include <tomsolver/error_type.h>
#include <tomsolver/functions.h>
#include <tomsolver/linear.h>
#endif

#include <cerrno>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <fstream>
#include <iostream>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <string>
#include <sys/time.h>
#include <unistd.h>
#include <vector>

using namespace tomsolver;
using std::string;
using std::vector;

// ---------------------------------------------------------------------------------------------------- JSON in
struct J {
    enum T { NUL, BOOL, NUM, STR, ARR, OBJ } t = NUL;
    double n = 0;
    string s;
    vector<J> a;
    vector<std::pair<string, J>> o;
    const J *find(const char *k) const {
        for (auto &p : o)
            if (p.first == k) return &p.second;
        return nullptr;
    }
    const J &operator[](const char *k) const {
        auto p = find(k);
        if (!p) {
            fprintf(stderr, "driver: missing field %s\n", k);
            _exit(97);
        }
        return *p;
    }
    const J &operator[](size_t i) const { return a.at(i); }
    const J &operator[](int i) const { return a.at((size_t)i); }
    bool has(const char *k) const { return find(k) != nullptr; }
    int i() const { return (int)n; }
};
struct JP {
    const char *p;
    void ws() { while (*p == ' ' || *p == '\t' || *p == '\r' || *p == '\n') ++p; }
    J val() {
        ws();
        J r;
        switch (*p) {
        case '{':
            r.t = J::OBJ; ++p; ws();
            if (*p == '}') { ++p; return r; }
            for (;;) {
                ws();
                string k = str();
                ws(); ++p; // :
                r.o.emplace_back(k, val());
                ws();
                if (*p == ',') { ++p; continue; }
                ++p; return r;
            }
        case '[':
            r.t = J::ARR; ++p; ws();
            if (*p == ']') { ++p; return r; }
            for (;;) {
                r.a.push_back(val());
                ws();
                if (*p == ',') { ++p; continue; }
                ++p; return r;
            }
        case '"': r.t = J::STR; r.s = str(); return r;
        case 't': r.t = J::BOOL; r.n = 1; p += 4; return r;
        case 'f': r.t = J::BOOL; r.n = 0; p += 5; return r;
        case 'n': p += 4; return r;
        default: {
            char *e;
            r.t = J::NUM; r.n = strtod(p, &e);
            if (e == p) { fprintf(stderr, "driver: bad json at %.40s\n", p); _exit(97); }
            p = e; return r;
        }
        }
    }
    string str() {
        string r;
        ++p;
        while (*p != '"') {
            if (*p == '\\') {
                ++p;
                if (*p == 'n') r += '\n';
                else if (*p == 't') r += '\t';
                else if (*p == 'u') { r += (char)strtol(string(p + 1, 4).c_str(), nullptr, 16); p += 4; }
                else r += *p;
                ++p;
            } else r += *p++;
        }
        ++p;
        return r;
    }
};

// --------------------------------------------------------------------------------------------------- JSON out
static string q(const string &s) {
    string r = "\"";
    for (char c : s) {
        if (c == '"' || c == '\\') { r += '\\'; r += c; }
        else if ((unsigned char)c < 32 || (unsigned char)c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", (unsigned char)c); r += b; }
        else r += c;
    }
    return r + "\"";
}
static string num(double d) { char b[40]; snprintf(b, 40, "\"%.17g\"", d); return b; }
static string codes(const string &s) {
    string r = "[";
    for (size_t i = 0; i < s.size(); ++i) { if (i) r += ','; r += std::to_string((int)(unsigned char)s[i]); }
    return r + "]";
}
template <typename C, typename F>
static string list(const C &c, F f) {
    string r = "[";
    bool first = true;
    for (auto &&x : c) { if (!first) r += ','; first = false; r += f(x); }
    return r + "]";
}
static string jb(bool b) { return b ? "true" : "false"; }
static string text(const J &j) { // codes -> string
    string s;
    for (auto &c : j.a) s += (char)c.i();
    return s;
}
static double dbl(const J &j) {
    if (j.t == J::NUM) return j.n;
    return strtod(j.s.c_str(), nullptr);
}

// ------------------------------------------------------------------------------------------------------- state
static std::map<string, Node> slots;
static std::map<string, SymMat> mats;
static std::map<string, VarsTable> tabs;

static Node &slot(const J &j) { return slots[j.s]; }
/** thrown instead of handing an empty Node to the library, which requires one that is not */
struct NullArgument {};
static Node &full(const J &j) {
    Node &n = slots[j.s];
    if (!n) throw NullArgument{};
    return n;
}

static string errClass(const std::exception &e) {
    if (auto p = dynamic_cast<const SingleParseError *>(&e))
        return "\"k\":\"parse1\",\"line\":" + std::to_string(p->GetLine()) + ",\"pos\":" + std::to_string(p->GetPos()) +
               ",\"what\":" + codes(p->what());
    if (dynamic_cast<const MultiParseError *>(&e)) return "\"k\":\"parsem\",\"what\":" + codes(e.what());
    if (dynamic_cast<const ParseError *>(&e)) return "\"k\":\"parse\",\"what\":" + codes(e.what());
    if (auto p = dynamic_cast<const MathError *>(&e))
        return "\"k\":\"math\",\"e\":" + std::to_string((int)p->GetErrorType()) + ",\"what\":" + codes(string(p->what()).substr(0, 600));
    if (dynamic_cast<const std::out_of_range *>(&e)) return "\"k\":\"range\",\"what\":" + codes(e.what());
    if (dynamic_cast<const std::runtime_error *>(&e)) return "\"k\":\"runtime\",\"what\":" + codes(e.what());
    return "\"k\":\"std\",\"what\":" + codes(e.what());
}
/** runs f, which returns the fields of the result; an exception becomes the result */
template <typename F>
static string guarded(F f) {
    try {
        string r = f();
        return "\"k\":\"ok\"" + (r.empty() ? "" : "," + r);
    } catch (const std::exception &e) {
        return errClass(e);
    } catch (const NullArgument &) { return "\"k\":\"nullarg\"";
    } catch (...) { return "\"k\":\"unknown\""; }
}
template <typename F>
static string valOf(F f) {
    return "{" + guarded([&] { return "\"v\":" + num(f()); }) + "}";
}

// --------------------------------------------------------------------------------------------------- expressions
static const std::map<string, MathOperator> opTable = {
    {"neg", MathOperator::MATH_NEGATIVE}, {"pos", MathOperator::MATH_POSITIVE}, {"sin", MathOperator::MATH_SIN},
    {"cos", MathOperator::MATH_COS}, {"tan", MathOperator::MATH_TAN}, {"asin", MathOperator::MATH_ARCSIN},
    {"acos", MathOperator::MATH_ARCCOS}, {"atan", MathOperator::MATH_ARCTAN}, {"sqrt", MathOperator::MATH_SQRT},
    {"log", MathOperator::MATH_LOG}, {"log2", MathOperator::MATH_LOG2}, {"log10", MathOperator::MATH_LOG10},
    {"exp", MathOperator::MATH_EXP}, {"+", MathOperator::MATH_ADD}, {"-", MathOperator::MATH_SUB},
    {"*", MathOperator::MATH_MULTIPLY}, {"/", MathOperator::MATH_DIVIDE}, {"^", MathOperator::MATH_POWER},
    {"&", MathOperator::MATH_AND}, {"|", MathOperator::MATH_OR}, {"%", MathOperator::MATH_MOD}};

template <typename T>
static Node unary(const string &f, T &&n) {
    if (f == "neg") return -std::forward<T>(n);
    if (f == "pos") return +std::forward<T>(n);
    if (f == "sin") return tomsolver::sin(std::forward<T>(n));
    if (f == "cos") return tomsolver::cos(std::forward<T>(n));
    if (f == "tan") return tomsolver::tan(std::forward<T>(n));
    if (f == "asin") return tomsolver::asin(std::forward<T>(n));
    if (f == "acos") return tomsolver::acos(std::forward<T>(n));
    if (f == "atan") return tomsolver::atan(std::forward<T>(n));
    if (f == "sqrt") return tomsolver::sqrt(std::forward<T>(n));
    if (f == "log") return tomsolver::log(std::forward<T>(n));
    if (f == "log2") return tomsolver::log2(std::forward<T>(n));
    if (f == "log10") return tomsolver::log10(std::forward<T>(n));
    if (f == "exp") return tomsolver::exp(std::forward<T>(n));
    fprintf(stderr, "driver: unary %s\n", f.c_str());
    _exit(97);
}
template <typename T1, typename T2>
static Node binary(const string &f, T1 &&a, T2 &&b) {
    if (f == "+") return std::forward<T1>(a) + std::forward<T2>(b);
    if (f == "-") return std::forward<T1>(a) - std::forward<T2>(b);
    if (f == "*") return std::forward<T1>(a) * std::forward<T2>(b);
    if (f == "/") return std::forward<T1>(a) / std::forward<T2>(b);
    if (f == "^") return std::forward<T1>(a) ^ std::forward<T2>(b);
    return internal::BinaryOperator(opTable.at(f), std::forward<T1>(a), std::forward<T2>(b));
}
static Node binaryCat(const string &f, Node &a, bool ma, Node &b, bool mb) {
    const Node &ca = a, &cb = b;
    if (ma && mb) return binary(f, std::move(a), std::move(b));
    if (ma) return binary(f, std::move(a), cb);
    if (mb) return binary(f, ca, std::move(b));
    return binary(f, ca, cb);
}

static unsigned rnd(unsigned &st) { st = st * 1664525u + 1013904223u; return (st >> 16) & 0x7fff; }

/** builds the expression; the style decides how the nodes are put together. 0: moves only */
static Node build(const J &e, unsigned &st) {
    const string &k = e[0].s;
    if (k == "n" || k == "np") return Num(strtod(e[1].s.c_str(), nullptr));
    if (k == "v") return Var(e[1].s);
    Node l = build(e[1], st);
    unsigned how = st ? rnd(st) % 4 : 0;
    if (e.a.size() == 2) {
        if (how == 3) return internal::Operator(opTable.at(k), std::move(l));
        if (how == 2) return unary(k, static_cast<const Node &>(l));
        return unary(k, std::move(l));
    }
    Node r = build(e[2], st);
    if (how == 3) return internal::Operator(opTable.at(k), std::move(l), std::move(r));
    if (how == 2 && (k == "+" || k == "-" || k == "*" || k == "/" || k == "^")) {
        unsigned c = rnd(st) % 2;
        if (k == "+") { if (c) l += r; else l += std::move(r); }
        else if (k == "-") { if (c) l -= r; else l -= std::move(r); }
        else if (k == "*") { if (c) l *= r; else l *= std::move(r); }
        else if (k == "/") { if (c) l /= r; else l /= std::move(r); }
        else { if (c) l ^= r; else l ^= std::move(r); }
        return l;
    }
    if (how == 1) { unsigned c = rnd(st); return binaryCat(k, l, c & 1, r, c & 2); }
    return binary(k, std::move(l), std::move(r));
}
static Node build0(const J &e) { unsigned st = 0; return build(e, st); }

static std::map<string, double> numMap(const J &j) {
    std::map<string, double> m;
    for (auto &p : j.o) m[p.first] = dbl(p.second);
    return m;
}

static string varsOf(const Node &n) {
    return list(n->GetAllVarNames(), [](const string &s) { return q(s); });
}

/** value at a point, by substitution */
static double at(const Node &n, const J &pt, unsigned how) {
    auto m = numMap(pt);
    switch (how % 3) {
    case 0: return Subs(n, m)->Vpa();
    case 1: { Node r = Subs(Clone(n), VarsTable(m)); r->Calc(); return r->Vpa(); }
    default: {
        std::map<string, Node> d;
        for (auto &p : m) d[p.first] = Num(p.second);
        return Subs(n, d)->Vpa();
    }
    }
}

static string observe(const Node &n, const J &c) {
    if (!n) return "\"null\":true";
    string r = "\"null\":false";
    n->CheckParent();
    r += ",\"vars\":" + varsOf(n);
    unsigned how = c.has("how") ? (unsigned)c["how"].i() : 0;
    if (c.has("pts"))
        r += ",\"vals\":" + list(c["pts"].a, [&](const J &pt) { return valOf([&] { return at(n, pt, how); }); });
    if (c.has("vpa")) r += ",\"vpa\":" + valOf([&] { return n->Vpa(); });
    if (c.has("rt")) {
        string t = n->ToString();
        std::stringstream ss;
        ss << n;
        r += ",\"str\":" + codes(t) + ",\"strsame\":" + jb(ss.str() == t);
        r += ",\"rt\":{" + guarded([&] {
            Node m = Parse(t);
            string o = "\"vars\":" + varsOf(m);
            o += ",\"vals\":" + list(c["pts"].a, [&](const J &pt) { return valOf([&] { return at(m, pt, 0); }); });
            return o;
        }) + "}";
    }
    return r;
}

// ------------------------------------------------------------------------------------------------------ matrices
static Mat matOf(const J &j) {
    int r = j["r"].i(), c = j["c"].i();
    const J &d = j["d"];
    if (r > 0 && c > 0 && j.has("il")) { // through an initializer list, 2x2 and 3x3 only
        auto v = [&](int i, int k) { return dbl(d[i * c + k]); };
        if (r == 2 && c == 2) return Mat{{v(0, 0), v(0, 1)}, {v(1, 0), v(1, 1)}};
        if (r == 3 && c == 3)
            return Mat{{v(0, 0), v(0, 1), v(0, 2)}, {v(1, 0), v(1, 1), v(1, 2)}, {v(2, 0), v(2, 1), v(2, 2)}};
        if (r == 2 && c == 3) return Mat{{v(0, 0), v(0, 1), v(0, 2)}, {v(1, 0), v(1, 1), v(1, 2)}};
    }
    Mat m(r, c);
    for (int i = 0; i < r; ++i)
        for (int k = 0; k < c; ++k) m.Value(i, k) = dbl(d[i * c + k]);
    return m;
}
static Vec vecOf(const J &j) {
    Vec v((int)j.a.size());
    for (size_t i = 0; i < j.a.size(); ++i) v[i] = dbl(j.a[i]);
    return v;
}
static string matOut(const Mat &m) {
    string r = "{\"r\":" + std::to_string(m.Rows()) + ",\"c\":" + std::to_string(m.Cols()) + ",\"d\":[";
    for (int i = 0; i < m.Rows(); ++i)
        for (int k = 0; k < m.Cols(); ++k) r += (i || k ? "," : "") + num(m.Value(i, k));
    return r + "]}";
}
static string valarr(const std::valarray<double> &v) {
    string r = "[";
    for (size_t i = 0; i < v.size(); ++i) r += (i ? "," : "") + num(v[i]);
    return r + "]";
}
static Vec toV(const Mat &m) { return m.ToVec(); }

static string matCmd(const J &c) {
    const string &f = c["f"].s;
    Mat A = matOf(c["A"]);
    Mat B = c.has("B") ? matOf(c["B"]) : Mat(0, 0);
    double k = c.has("x") ? dbl(c["x"]) : 0;
    int i = c.has("i") ? c["i"].i() : 0, j = c.has("j") ? c["j"].i() : 0;
    auto M = [](const Mat &m) { return "\"m\":" + matOut(m); };
    auto S = [](double d) { return "\"s\":" + num(d); };
    auto Bo = [](bool b) { return "\"b\":" + jb(b); };
    string r;
    if (f == "add") r = M(A + B);
    else if (f == "addeq") { Mat C = A; C += B; r = M(C); }
    else if (f == "sub") r = M(A - B);
    else if (f == "neg") r = M(-A);
    else if (f == "scale") r = M(A * k);
    else if (f == "lscale") r = M(k * A);
    else if (f == "mul") r = M(A * B);
    else if (f == "tr") r = M(A.Transpose());
    else if (f == "row") { const Mat &cA = A; r = "\"l\":" + valarr(cA.Row(i, j)); }
    else if (f == "col") { const Mat &cA = A; r = "\"l\":" + valarr(cA.Col(i, j)); }
    else if (f == "setrow") { Mat C = A; std::valarray<double> v(k, (size_t)(C.Cols() - j)); C.Row(i, j) = v; r = M(C); }
    else if (f == "setcol") { Mat C = A; std::valarray<double> v(k, (size_t)(C.Rows() - j)); C.Col(i, j) = v; r = M(C); }
    else if (f == "swaprow") { Mat C = A; C.SwapRow(i, j); r = M(C); }
    else if (f == "swapcol") { Mat C = A; C.SwapCol(i, j); r = M(C); }
    else if (f == "resize") { Mat C = A; C.Resize(i, j); r = M(C); }
    else if (f == "zero") { Mat C = A; C.Zero(); r = M(C); }
    else if (f == "ones") { Mat C = A; C.Ones(); r = M(C); }
    else if (f == "setvalue") { Mat C = A; C.SetValue(k); r = M(C); }
    else if (f == "value") { const Mat &cA = A; Mat C = A; C.Value(i, j) = k; r = S(cA.Value(i, j)) + "," + M(C); }
    else if (f == "norm2") r = S(A.Norm2());
    else if (f == "norminf") r = S(A.NormInfinity());
    else if (f == "normneginf") r = S(A.NormNegInfinity());
    else if (f == "min") r = S(A.Min());
    else if (f == "eqnum") r = Bo(A == k);
    else if (f == "eqmat") r = Bo(A == B);
    else if (f == "iszero") r = Bo(IsZero(A));
    else if (f == "allless") r = Bo(AllIsLessThan(A, B));
    else if (f == "eachdiv") r = M(EachDivide(A, B));
    else if (f == "maxabsrow") r = "\"i\":" + std::to_string(GetMaxAbsRowIndex(A, i, j, c["col"].i()));
    else if (f == "tovec") { Vec v = A.ToVec(); r = M(v); }
    else if (f == "str") { std::stringstream ss; ss << A; r = "\"str\":" + codes(A.ToString()) + ",\"strsame\":" + jb(ss.str() == A.ToString()); }
    else if (f == "copy") { Mat C(A); Mat D = Mat(0, 0); D = C; C.SetValue(k); r = M(D); }
    else if (f == "det") r = S(Det(A, i));
    else if (f == "inv") r = M(A.Inverse());
    else if (f == "adj") { Mat C(A.Rows(), A.Cols()); Adjoint(A, C); r = M(C); }
    else if (f == "pd") r = Bo(A.PositiveDetermine());
    // vectors: A and B are columns
    else if (f == "vadd") r = M(toV(A) + toV(B));
    else if (f == "vsub") r = M(toV(A) - toV(B));
    else if (f == "vneg") { Vec v = toV(A); r = M(-v); }
    else if (f == "vscale") r = M(toV(A) * k);
    else if (f == "vlscale") r = M(k * toV(A));
    else if (f == "vmul") r = M(toV(A) * toV(B));
    else if (f == "vdiv") r = M(toV(A) / toV(B));
    else if (f == "vless") { Vec v = toV(A); r = Bo(v < toV(B)); }
    else if (f == "dot") r = S(Dot(toV(A), toV(B)));
    else if (f == "vresize") { Vec v = toV(A); v.Resize(i); r = M(v); }
    else if (f == "vasmat") { Vec v = toV(A); r = M(v.AsMat() * B); }
    else if (f == "vat") { Vec v = toV(A); const Vec &cv = v; double o = cv[(size_t)i]; v[(size_t)i] = k; r = S(o) + "," + M(v); }
    else if (f == "vinit") { Vec v{dbl(c["A"]["d"][0]), dbl(c["A"]["d"][1]), dbl(c["A"]["d"][2])}; r = M(v); }
    else if (f == "vfill") { Vec v(i, k); r = M(v); }
    else if (f == "fill") { Mat m(i, j, k); r = M(m); }
    else { fprintf(stderr, "driver: mat %s\n", f.c_str()); _exit(97); }
    return r + ",\"A2\":" + matOut(A) + ",\"B2\":" + matOut(B);
}

// ----------------------------------------------------------------------------------------------- symbolic matrices
static SymMat symOf(const J &j) {
    int r = j["r"].i(), c = j["c"].i();
    const J &e = j["e"];
    if (j.has("il") && r == 2 && c == 2) return SymMat{{build0(e[0]), build0(e[1])}, {build0(e[2]), build0(e[3])}};
    if (j.has("il") && r == 2 && c == 1) return SymMat{{build0(e[0])}, {build0(e[1])}};
    SymMat m(r, c);
    for (int i = 0; i < r; ++i)
        for (int k = 0; k < c; ++k) m.Value(i, k) = build0(e[i * c + k]);
    return m;
}
static string symObs(const SymMat &m, const J &c) {
    string r = "\"r\":" + std::to_string(m.Rows()) + ",\"c\":" + std::to_string(m.Cols()) + ",\"empty\":" + jb(m.Empty());
    vector<const Node *> es;
    for (int i = 0; i < m.Rows(); ++i)
        for (int k = 0; k < m.Cols(); ++k) es.push_back(&m.Value(i, k));
    r += ",\"vars\":" + list(m.GetAllVarNames(), [](const string &s) { return q(s); });
    r += ",\"es\":" + list(es, [&](const Node *n) {
        if (!*n) return string("{\"null\":true}");
        (*n)->CheckParent();
        return "{\"null\":false,\"vars\":" + varsOf(*n) + ",\"vals\":" +
               list(c["pts"].a, [&](const J &pt) { return valOf([&] { return at(*n, pt, 0); }); }) + "}";
    });
    return r;
}
static SymMat &smat(const J &j) {
    auto it = mats.find(j.s);
    if (it == mats.end()) { fprintf(stderr, "driver: no matrix %s\n", j.s.c_str()); _exit(97); }
    return it->second;
}
static void putMat(const string &d, SymMat &&m) {
    mats.erase(d);
    mats.emplace(d, std::move(m));
}
static vector<string> names(const J &j) {
    vector<string> r;
    for (auto &x : j.a) r.push_back(x.s);
    return r;
}
static string symCmd(const J &c) {
    const string &f = c["f"].s;
    if (f == "set") { putMat(c["d"].s, symOf(c["m"])); return ""; }
    if (f == "setvec") {
        const J &e = c["m"]["e"];
        if (c.has("il") && e.a.size() == 2) { SymVec v{build0(e[0]), build0(e[1])}; putMat(c["d"].s, std::move(v)); return ""; }
        if (c.has("il") && e.a.size() == 3) { SymVec v{build0(e[0]), build0(e[1]), build0(e[2])}; putMat(c["d"].s, std::move(v)); return ""; }
        SymVec v((int)e.a.size());
        for (size_t i = 0; i < e.a.size(); ++i) v[i] = build0(e[i]);
        putMat(c["d"].s, std::move(v));
        return "";
    }
    if (f == "frommat") { Mat m = matOf(c["m"]); putMat(c["d"].s, SymMat(m)); return ""; }
    if (f == "obs") return symObs(smat(c["a"]), c);
    SymMat &A = smat(c["a"]);
    if (f == "mul") { SymMat r = A * smat(c["b"]); putMat(c["d"].s, std::move(r)); return ""; }
    if (f == "sub") { SymMat r = A - smat(c["b"]); putMat(c["d"].s, std::move(r)); return ""; }
    if (f == "vsub") { SymVec r = A.ToSymVec() - smat(c["b"]).ToSymVec(); putMat(c["d"].s, std::move(r)); return ""; }
    if (f == "clone") { SymMat r = A.Clone(); putMat(c["d"].s, std::move(r)); return ""; }
    if (f == "tovec") { SymVec r = A.ToSymVec(); putMat(c["d"].s, std::move(r)); return ""; }
    if (f == "onebyone") { SymVec r = A.ToSymVecOneByOne(); putMat(c["d"].s, std::move(r)); return ""; }
    if (f == "subs") { A.Subs(numMap(c["m"])); return ""; }
    if (f == "subst") { A.Subs(VarsTable(numMap(c["m"]))); return ""; }
    if (f == "calc") { A.Calc(); return ""; }
    if (f == "tomat") return "\"m\":" + matOut(A.ToMat());
    if (f == "eq") return "\"b\":" + jb(A == smat(c["b"]));
    if (f == "put") { A.Value(c["i"].i(), c["j"].i()) = build0(c["e"]); return ""; }
    if (f == "jac") { SymMat r = Jacobian(A, names(c["vs"])); putMat(c["d"].s, std::move(r)); return ""; }
    if (f == "str") { std::stringstream ss; ss << A; return "\"str\":" + codes(A.ToString()) + ",\"strsame\":" + jb(ss.str() == A.ToString()); }
    fprintf(stderr, "driver: sym %s\n", f.c_str());
    _exit(97);
}

// ------------------------------------------------------------------------------------------------ variable tables
static string tabOut(const VarsTable &t) {
    string r = "\"n\":" + std::to_string(t.VarNums());
    r += ",\"names\":" + list(t.Vars(), [](const string &s) { return q(s); });
    vector<double> v;
    for (int i = 0; i < t.Values().Rows(); ++i) v.push_back(t.Values()[(size_t)i]);
    r += ",\"values\":" + list(v, num);
    r += ",\"iter\":" + list(t, [](const std::pair<const string, double> &p) { return "[" + q(p.first) + "," + num(p.second) + "]"; });
    bool same = std::distance(t.begin(), t.end()) == std::distance(t.cbegin(), t.cend());
    std::stringstream ss;
    ss << t;
    r += ",\"same\":" + jb(same && ss.str() == t.ToString());
    r += ",\"str\":" + codes(t.ToString());
    return r;
}
static VarsTable initTable(const J &ps) { // through an initializer list
    auto p = [&](size_t i) { return std::pair<string, double>(ps[i][0].s, dbl(ps[i][1])); };
    switch (ps.a.size()) {
    case 0: return VarsTable(std::initializer_list<std::pair<string, double>>{});
    case 1: return VarsTable(std::initializer_list<std::pair<string, double>>{p(0)});
    case 2: return VarsTable(std::initializer_list<std::pair<string, double>>{p(0), p(1)});
    case 3: return VarsTable(std::initializer_list<std::pair<string, double>>{p(0), p(1), p(2)});
    default: return VarsTable(std::initializer_list<std::pair<string, double>>{p(0), p(1), p(2), p(3)});
    }
}
/** a table with the given order of names and their values */
static VarsTable tableOf(const J &ps) {
    vector<string> ns;
    for (auto &p : ps.a) ns.push_back(p[0].s);
    VarsTable t(ns, 0.0);
    Vec v((int)ps.a.size());
    for (size_t i = 0; i < ps.a.size(); ++i) v[i] = dbl(ps[i][1]);
    t.SetValues(v);
    return t;
}
static string vtCmd(const J &c) {
    const string &f = c["f"].s;
    auto put = [&](VarsTable &&t) { tabs.erase(c["d"].s); auto it = tabs.emplace(c["d"].s, std::move(t)).first; return tabOut(it->second); };
    if (f == "vec") return put(VarsTable(names(c["names"]), dbl(c["x"])));
    if (f == "init") return put(initTable(c["ps"]));
    if (f == "map") return put(VarsTable(numMap(c["m"])));
    VarsTable &t = tabs.at(c["a"].s);
    if (f == "copy") { VarsTable u(t); return put(std::move(u)); }
    if (f == "assign") { VarsTable &u = tabs.at(c["d"].s); u = t; return tabOut(u); }
    if (f == "set") { t.SetValues(vecOf(c["vs"])); return tabOut(t); }
    if (f == "obs") return tabOut(t);
    if (f == "get") return "\"v\":" + num(t[c["n"].s]);
    if (f == "has") return "\"b\":" + jb(t.Has(c["n"].s));
    if (f == "eq") return "\"b\":" + jb(t == tabs.at(c["b"].s));
    fprintf(stderr, "driver: vt %s\n", f.c_str());
    _exit(97);
}

// ------------------------------------------------------------------------------------------------------- solving
static string solveCmd(const J &c) {
    const J &es = c["eqs"];
    SymVec eqs((int)es.a.size());
    for (size_t i = 0; i < es.a.size(); ++i) eqs[i] = build0(es[i]);
    string before = eqs.ToString();
    vector<Node> keep;
    for (size_t i = 0; i < es.a.size(); ++i) keep.push_back(build0(es[i]));
    const string &m = c["m"].s;
    const SymVec &ceqs = eqs;
    auto run = [&](const VarsTable *t) {
        return guarded([&] {
            VarsTable r = !t ? Solve(ceqs) : m == "nr" ? SolveByNewtonRaphson(ceqs, *t) : m == "lm" ? SolveByLM(ceqs, *t) : Solve(ceqs, *t);
            string o = tabOut(r);
            o += ",\"res\":" + list(keep, [&](const Node &n) { return valOf([&] { return Subs(n, r)->Vpa(); }); });
            return o;
        });
    };
    string out;
    if (c.has("tab")) {
        VarsTable t = tableOf(c["tab"]);
        string tb = tabOut(t);
        out = run(&t);
        out += ",\"tabkept\":" + jb(tb == tabOut(t));
    } else {
        out = run(nullptr);
        out += ",\"tabkept\":true";
    }
    out += ",\"eqskept\":" + jb(eqs.ToString() == before);
    return out;
}

static string linearCmd(const J &c) {
    Mat A = matOf(c["A"]);
    Vec b = vecOf(c["b"]);
    const Mat &cA = A;
    const Vec &cb = b;
    string out = guarded([&] { Vec x = SolveLinear(cA, cb); return "\"x\":" + valarr([&] { std::valarray<double> v((size_t)x.Rows()); for (int i = 0; i < x.Rows(); ++i) v[(size_t)i] = x[(size_t)i]; return v; }()); });
    out += ",\"A2\":" + matOut(A) + ",\"b2\":" + matOut(b);
    return out;
}

static string searchCmd(const J &c, bool armijo) {
    vector<string> vs = names(c["vs"]);
    SymVec F((int)c["eqs"].a.size());
    for (size_t i = 0; i < c["eqs"].a.size(); ++i) F[i] = build0(c["eqs"][i]);
    SymMat JF(0, 0);
    if (armijo) {
        JF = SymMat((int)c["df"]["r"].i(), c["df"]["c"].i());
        for (int i = 0; i < JF.Rows(); ++i)
            for (int k = 0; k < JF.Cols(); ++k) JF.Value(i, k) = build0(c["df"]["e"][i * JF.Cols() + k]);
    }
    Vec x = vecOf(c["x"]), d = vecOf(c["dir"]);
    int calls = 0;
    auto tab = [&](const Vec &v) { VarsTable t(vs, 0); t.SetValues(v); return t; };
    auto f = [&](Vec v) -> Vec { ++calls; return F.Clone().Subs(tab(v)).Calc().ToMat().ToVec(); };
    auto df = [&](Vec v) -> Mat { return JF.Clone().Subs(tab(v)).Calc().ToMat(); };
    const Vec &cx = x, &cd = d;
    string out = guarded([&] {
        double a = armijo ? Armijo(cx, cd, f, df) : c.has("unc") ? FindAlpha(cx, cd, f, dbl(c["unc"])) : FindAlpha(cx, cd, f);
        return "\"v\":" + num(a);
    });
    return out + ",\"calls\":" + std::to_string(calls) + ",\"x2\":" + matOut(x) + ",\"d2\":" + matOut(d);
}

// ------------------------------------------------------------------------------------------------ deep expressions
/** what step i of a chain puts before and after, as text; kinds are described in spec/Deep.tla */
static std::pair<const char *, const char *> deepStep(const string &kind, int i) {
    bool odd = i % 2 == 1;
    if (kind == "addL") return {"", "+x"};
    if (kind == "subL") return {"", "-x"};
    if (kind == "mulL") return {"", "*1"};
    if (kind == "addR") return {"x+(", ")"};
    if (kind == "subR") return {"x-(", ")"};
    if (kind == "divR") return {"x/(", ")"};
    if (kind == "powR") return {"x^", ""};
    if (kind == "powL") return {"(", ")^1"};
    if (kind == "neg") return {"-", ""};
    if (kind == "negp") return {"-(", ")"};
    if (kind == "paren") return {"(", ")"};
    if (kind == "sin") return {"sin(", ")"};
    if (kind == "funs") return {odd ? "exp(" : "log(", ")"};
    if (kind == "zig") return odd ? std::pair<const char *, const char *>{"", "-x"} : std::pair<const char *, const char *>{"x-(", ")"};
    if (kind == "sgn") return {odd ? "-(" : "x+(", ")"};
    if (kind == "comb") return {"x*1+(", ")"};
    fprintf(stderr, "driver: deep %s\n", kind.c_str());
    _exit(97);
}
static string balText(int n, const string &leaf) {
    if (n == 0) return leaf;
    return "(" + balText((n - 1) / 2, leaf) + "+" + balText(n - 1 - (n - 1) / 2, "x") + ")";
}
static Node balNode(int n, const string &leaf) {
    if (n == 0) return Var(leaf);
    Node l = balNode((n - 1) / 2, leaf);
    return std::move(l) + balNode(n - 1 - (n - 1) / 2, "x");
}
/** a chain of n operators around a leaf, built without recursion */
static Node deepNode(const string &kind, int n, const string &via, const string &leaf = "x") {
    if (kind == "bal") return via == "parse" ? Parse(balText(n, leaf)) : balNode(n, leaf);
    if (via == "parse") {
        string s, e;
        for (int i = n; i > 0; --i) s += deepStep(kind, i).first;
        for (int i = 1; i <= n; ++i) e += deepStep(kind, i).second;
        return Parse(s + leaf + e);
    }
    Node a = Var(leaf);
    for (int i = 1; i <= n; ++i) {
        bool odd = i % 2 == 1;
        if (kind == "addL") a = std::move(a) + Var("x");
        else if (kind == "subL") a -= Var("x");
        else if (kind == "mulL") a *= Num(1);
        else if (kind == "addR") a = Var("x") + std::move(a);
        else if (kind == "subR") a = Var("x") - std::move(a);
        else if (kind == "divR") a = Var("x") / std::move(a);
        else if (kind == "powR") a = Var("x") ^ std::move(a);
        else if (kind == "powL") a ^= Num(1);
        else if (kind == "neg" || kind == "negp") a = -std::move(a);
        else if (kind == "paren") return a;
        else if (kind == "sin") a = tomsolver::sin(std::move(a));
        else if (kind == "funs") a = odd ? tomsolver::exp(std::move(a)) : tomsolver::log(std::move(a));
        else if (kind == "zig") { if (odd) a -= Var("x"); else a = Var("x") - std::move(a); }
        else if (kind == "sgn") { if (odd) a = -std::move(a); else a = Var("x") + std::move(a); }
        else if (kind == "comb") a = Var("x") * Num(1) + std::move(a);
        else { fprintf(stderr, "driver: deep %s\n", kind.c_str()); _exit(97); }
    }
    return a;
}
static string deepCmd(const J &c) {
    const string kind = c["kind"].s;
    int n = c["n"].i();
    double x = dbl(c["x"]);
    string r;
    Node a = deepNode(kind, n, c["via"].s);
    Node b = Clone(a);
    std::map<string, double> at{{"x", x}};
    for (auto &o : c["do"].a) {
        const string &w = o.s;
        if (w == "vars") r += ",\"vars\":" + varsOf(b);
        else if (w == "eq") r += ",\"eq\":" + jb(a->Equal(b));
        else if (w == "neq") { Node d = deepNode(kind, n, c["via"].s, "y"); r += ",\"neq\":" + jb(a->Equal(d) || d->Equal(a)) + ",\"vars2\":" + varsOf(d); }
        else if (w == "subs") { Node s = Subs(b, at); r += ",\"val\":" + valOf([&] { return s->Vpa(); }); }
        else if (w == "subsm") { Node s = Subs(Clone(b), "x", Num(x)); s->Calc(); r += ",\"val2\":" + valOf([&] { return s->Vpa(); }); }
        else if (w == "subd") { Node t = Var("y") + Var("y"), s = Subs(t, "y", b); r += ",\"vald\":" + valOf([&] { return Subs(std::move(s), at)->Vpa(); }); }
        else if (w == "self") { Node s = Clone(b); s += s; s -= b; s += std::move(a); a = Clone(b); r += ",\"vals\":" + valOf([&] { return Subs(std::move(s), VarsTable{{"x", x}})->Vpa(); }); }
        else if (w == "unbound") r += ",\"unb\":" + valOf([&] { return b->Vpa(); });
        else if (w == "simp") { Node s = Clone(b); Simplify(s); r += ",\"simp\":" + valOf([&] { return Subs(std::move(s), at)->Vpa(); }); }
        else if (w == "diff") { Node s = Diff(b, "x"); r += ",\"diff\":" + valOf([&] { return Subs(std::move(s), at)->Vpa(); }); }
        else if (w == "diff2") { Node s = Diff(Clone(b), "x", 2); r += ",\"diff2\":" + valOf([&] { return Subs(std::move(s), at)->Vpa(); }); }
        else if (w == "mat") {
            SymVec v(2);
            v[0] = Clone(b);
            v[1] = Var("q");
            SymMat j = v.Clone();
            r += ",\"mvars\":" + list(j.GetAllVarNames(), [](const string &s) { return q(s); }) + ",\"meq\":" + jb(j == v);
            j.Subs(std::map<string, double>{{"x", x}, {"q", 3}});
            r += ",\"mval\":" + valOf([&] { j.Calc(); return j.ToMat().Value(0, 0); });
        } else if (w == "jac") {
            SymVec v(1);
            v[0] = Clone(b);
            SymMat j = Jacobian(v, {"q", "x"});
            j.Subs(VarsTable{{"x", x}});
            r += ",\"jac\":" + valOf([&] { j.Calc(); return j.ToMat().Value(0, 1) + 1000 * j.ToMat().Value(0, 0); });
        }
        else if (w == "str") {
            string t = b->ToString();
            r += ",\"len\":" + std::to_string(t.size()) + ",\"rt\":{" + guarded([&] { Node p = Parse(t); return "\"v\":" + num(Subs(std::move(p), at)->Vpa()); }) + "}";
        } else if (w == "parent") a->CheckParent();
    }
    a.reset();
    b.reset();
    return r.empty() ? "" : r.substr(1);
}
static string longCmd(const J &c) { // long names and literals
    int n = c["n"].i();
    const string &kind = c["kind"].s;
    if (kind == "name") {
        string s((size_t)n, 'v');
        bool l = VarNameIsLegal(s);
        Node p = Parse(s + "+1");
        bool same = p->GetAllVarNames() == std::set<string>{s};
        string t = p->ToString();
        return "\"legal\":" + jb(l) + ",\"same\":" + jb(same && t == s + "+1");
    }
    if (kind == "badname") {
        string s((size_t)n, 'v');
        s += "$";
        bool l = VarNameIsLegal(s);
        string e = guarded([&] { Parse("1+" + s); return string(); });
        return "\"legal\":" + jb(l) + ",\"pe\":" + (e.find("\"k\":\"parse1\"") == 0 && e.find("\"pos\":2") != string::npos ? "true" : "false");
    }
    // literal with many digits
    string s = "1." + string((size_t)n, '0') + "+x";
    Node p = Parse(s);
    return "\"v\":" + num(Subs(p, std::map<string, double>{{"x", 1}})->Vpa());
}

// -------------------------------------------------------------------------------------------------------- settings
static string cfgOut() {
    auto &g = Config::Get();
    return "\"throw\":" + jb(g.throwOnInvalidValue) + ",\"eps\":" + num(g.epsilon) + ",\"log\":" + std::to_string((int)g.logLevel) +
           ",\"max\":" + std::to_string(g.maxIterations) + ",\"method\":" + std::to_string((int)g.nonlinearMethod) +
           ",\"init\":" + num(g.initialValue) + ",\"indet\":" + jb(g.allowIndeterminateEquation);
}
static void cfgSet(const J &c) {
    auto &g = Config::Get();
    for (auto &p : c.o) {
        if (p.first == "throw") g.throwOnInvalidValue = p.second.n != 0;
        else if (p.first == "eps") g.epsilon = dbl(p.second);
        else if (p.first == "log") g.logLevel = (LogLevel)p.second.i();
        else if (p.first == "max") g.maxIterations = p.second.i();
        else if (p.first == "method") g.nonlinearMethod = (NonlinearMethod)p.second.i();
        else if (p.first == "init") g.initialValue = dbl(p.second);
        else if (p.first == "indet") g.allowIndeterminateEquation = p.second.n != 0;
    }
}

// -------------------------------------------------------------------------------------------------------- commands
static string command(const J &c) {
    const string &op = c["op"].s;
    if (op == "reset") {
        slots.clear(); mats.clear(); tabs.clear();
        Config::Get().Reset();
        if (c.has("set")) cfgSet(c["set"]);
        return cfgOut();
    }
    if (op == "parse") {
        string t = text(c["t"]);
        Node n = c.has("f") ? tomsolver::operator""_f(t.c_str(), t.size()) : Parse(t);
        slot(c["d"]) = std::move(n);
        return "";
    }
    if (op == "build") {
        unsigned st = c.has("st") ? (unsigned)c["st"].i() : 0;
        slot(c["d"]) = build(c["e"], st);
        return "";
    }
    if (op == "obs") return observe(slot(c["a"]), c);
    if (op == "un") {
        Node &a = full(c["a"]);
        Node r = c["ca"].s == "m" ? unary(c["f"].s, std::move(a)) : unary(c["f"].s, static_cast<const Node &>(a));
        slot(c["d"]) = std::move(r);
        return "";
    }
    if (op == "bin") {
        Node r = binaryCat(c["f"].s, full(c["a"]), c["ca"].s == "m", full(c["b"]), c["cb"].s == "m");
        slot(c["d"]) = std::move(r);
        return "";
    }
    if (op == "cas") {
        Node &a = full(c["a"]), &b = full(c["b"]);
        const Node &cb = b;
        bool m = c["cb"].s == "m";
        const string &f = c["f"].s;
        Node *ret = nullptr;
        if (f == "+") ret = m ? &(a += std::move(b)) : &(a += cb);
        else if (f == "-") ret = m ? &(a -= std::move(b)) : &(a -= cb);
        else if (f == "*") ret = m ? &(a *= std::move(b)) : &(a *= cb);
        else if (f == "/") ret = m ? &(a /= std::move(b)) : &(a /= cb);
        else if (f == "^") ret = m ? &(a ^= std::move(b)) : &(a ^= cb);
        return "\"self\":" + jb(ret == &a);
    }
    // how: 1 by the constructors of the node object, 2 by its assignment where there is one to assign to
    if (op == "clone") {
        int how = c.has("how") ? c["how"].i() : 0;
        Node &a = full(c["a"]), &d = slot(c["d"]);
        if (how == 2 && d) *d = *a;
        else { Node r = how ? Node(new internal::NodeImpl(*a)) : Clone(a); d = std::move(r); }
        return "";
    }
    if (op == "move") {
        int how = c.has("how") ? c["how"].i() : 0;
        Node &a = slot(c["a"]), &d = slot(c["d"]);
        if (how == 2 && a && d && &a != &d) { *d = std::move(*a); a.reset(); }
        else if (how && a) { Node r(new internal::NodeImpl(std::move(*a))); a.reset(); d = std::move(r); }
        else { Node r = Move(a); d = std::move(r); }
        return "";
    }
    if (op == "swap") { std::swap(slot(c["a"]), slot(c["b"])); return ""; }
    if (op == "drop") { slot(c["a"]).reset(); return ""; }
    if (op == "subs") {
        Node &a = full(c["a"]);
        const Node &ca = a;
        bool m = c["ca"].s == "m";
        const string &k = c["kind"].s;
        Node r;
        if (k == "one") r = m ? Subs(std::move(a), c["v"].s, full(c["b"])) : Subs(ca, c["v"].s, full(c["b"]));
        else if (k == "vec") {
            SymVec v((int)c["bs"].a.size());
            for (size_t i = 0; i < c["bs"].a.size(); ++i) v[i] = Clone(full(c["bs"][i]));
            r = m ? Subs(std::move(a), names(c["vs"]), v) : Subs(ca, names(c["vs"]), v);
        } else if (k == "mapn") {
            std::map<string, Node> d;
            for (size_t i = 0; i < c["bs"].a.size(); ++i) d[c["vs"][i].s] = Clone(full(c["bs"][i]));
            r = m ? Subs(std::move(a), d) : Subs(ca, d);
        } else if (k == "num") r = m ? Subs(std::move(a), numMap(c["m"])) : Subs(ca, numMap(c["m"]));
        else r = m ? Subs(std::move(a), VarsTable(numMap(c["m"]))) : Subs(ca, VarsTable(numMap(c["m"])));
        slot(c["d"]) = std::move(r);
        return "";
    }
    if (op == "diff") {
        Node &a = full(c["a"]);
        int k = c["n"].i();
        Node r;
        if (c["ca"].s == "m") r = k == 1 ? Diff(std::move(a), c["v"].s) : Diff(std::move(a), c["v"].s, k);
        else r = k == 1 ? Diff(static_cast<const Node &>(a), c["v"].s) : Diff(static_cast<const Node &>(a), c["v"].s, k);
        slot(c["d"]) = std::move(r);
        return "";
    }
    if (op == "simp") { Simplify(full(c["a"])); return ""; }
    if (op == "calc") { Node &a = full(c["a"]); bool s = &a->Calc() == a.get(); return "\"self\":" + jb(s) + ",\"v\":" + num(a->Vpa()); }
    if (op == "vpa") return "\"v\":" + num(full(c["a"])->Vpa());
    if (op == "eq") return "\"b\":" + jb(full(c["a"])->Equal(full(c["b"])));
    if (op == "str") { string t = full(c["a"])->ToString(); return "\"str\":" + codes(t); }
    if (op == "num") { slot(c["d"]) = Num(dbl(c["x"])); return ""; }
    if (op == "var") { slot(c["d"]) = Var(text(c["t"])); return ""; }
    if (op == "legal") return "\"b\":" + jb(VarNameIsLegal(text(c["t"])));
    if (op == "tostr") return "\"str\":" + codes(tomsolver::ToString(dbl(c["x"])));
    if (op == "cfg") { cfgSet(c["set"]); return cfgOut(); }
    if (op == "cfgreset") { Config::Get().Reset(); return cfgOut(); }
    if (op == "cfgget") return cfgOut();
    if (op == "mat") return matCmd(c);
    if (op == "sym") return symCmd(c);
    if (op == "vt") return vtCmd(c);
    if (op == "deep") return deepCmd(c);
    if (op == "long") return longCmd(c);
    if (op == "errinfo") {
        MathError e((ErrorType)c["e"].i(), text(c["t"]));
        const std::runtime_error &re = e;
        return "\"info\":" + codes(GetErrorInfo((ErrorType)c["e"].i())) + ",\"what\":" + codes(re.what()) + ",\"et\":" + std::to_string((int)e.GetErrorType());
    }
    fprintf(stderr, "driver: unknown op %s\n", op.c_str());
    _exit(97);
}

int main(int argc, char **argv) {
    if (argc < 3) return 97;
    long limit = argc > 3 ? atol(argv[3]) : 20;
    std::ifstream in(argv[1]);
    FILE *out = fopen(argv[2], "a");
    if (!in || !out) return 97;
    string line;
    std::ostringstream captured;
    std::streambuf *old = std::cout.rdbuf();
    while (std::getline(in, line)) {
        if (line.empty()) continue;
        JP p{line.c_str()};
        J c = p.val();
        itimerval tv{};
        tv.it_value.tv_sec = limit;
        setitimer(ITIMER_VIRTUAL, &tv, nullptr);
        captured.str("");
        std::cout.rdbuf(captured.rdbuf());
        string o;
        const string &op = c["op"].s;
        if (op == "solve") o = solveCmd(c);
        else if (op == "linear") o = linearCmd(c);
        else if (op == "armijo") o = searchCmd(c, true);
        else if (op == "findalpha") o = searchCmd(c, false);
        else o = guarded([&] { return command(c); });
        std::cout.rdbuf(old);
        o += ",\"cout\":" + std::to_string(captured.str().size());
        if (c.has("cfgafter")) o += ",\"cfg\":{" + cfgOut() + "}";
        while (!line.empty() && line.back() != '}') line.pop_back();
        line.pop_back();
        fprintf(out, "%s,\"out\":{%s}}\n", line.c_str(), o.c_str());
        fflush(out);
    }
    return 0;
}
