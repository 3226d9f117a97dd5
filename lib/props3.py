"""Properties of the nonlinear solvers, the settings, the editions, the error reports and deep expressions."""
import json, math
import core, gen, props, props2
from gen import enc, reset, v, n, f17
from props import Prop, prop, chunks, words, tlc_histories
from props2 import entry, mat, lin, depend, linear_cmds


# ------------------------------------------------------------------------------------------------ nonlinear systems
def add(*es):
    e = es[0]
    for x in es[1:]:
        e = ["+", e, x]
    return e


def mul(a, b):
    return ["*", a, b]


def num(x):
    return n(f17(x)) if x >= 0 else ["neg", n(f17(-x))]


class Sys:
    """equations, the unknowns and starting points of interest"""
    def __init__(self, eqs, names, starts, kind):
        self.eqs, self.names, self.starts, self.kind = eqs, names, starts, kind


def uni(r, x="x"):
    X = v(x)
    k = r.randint(0, 13)
    A = lambda lo=-3, hi=3: round(r.uniform(lo, hi), r.choice([0, 1, 3]))
    wide = lambda: [A(-4, 4), A(-1, 1), A(-20, 20), r.choice([0, 1, -1, 2])]
    if k == 0:  # factored polynomial
        a, b, c = A(), A(), A()
        return Sys([mul(mul(["-", X, num(a)], ["-", X, num(b)]), ["-", X, num(c)])], [x], wide() + [a, b, c, a + 1e-10], "cubic")
    if k == 1:
        a, b = A(), A()
        e = add(["^", X, n("2")], ["neg", mul(num(a + b), X)], num(a * b))
        return Sys([e], [x], wide() + [a], "quadratic")
    if k == 2:
        c = round(r.uniform(-0.95, 0.95), 2)
        return Sys([["-", ["sin", X], num(c)]], [x], wide(), "sin")
    if k == 3:
        c = round(r.uniform(0.2, 9), 2)
        return Sys([["-", ["exp", X], n(f17(c))]], [x], wide(), "exp")
    if k == 4:
        return Sys([["atan", ["-", X, num(A())]]], [x], wide(), "atan")  # diverges from far away
    if k == 5:
        return Sys([add(["-", ["^", X, n("3")], mul(n("2"), X)], n("2"))], [x], [0, 1, -2, 0.5, -1, 0.1, A(-2, 2), A(0, 1)], "cycle")
    if k == 6:
        return Sys([["+", ["^", X, n("2")], n(f17(round(r.uniform(0.1, 3), 1)))]], [x], wide(), "rootless")
    if k == 7:
        return Sys([["-", ["log", X], num(A(-1, 2))]], [x], [0.5, 1, 2, 3, 0, -1, 8], "log")
    if k == 8:
        return Sys([["-", ["sqrt", X], n(f17(abs(A())))]], [x], [0.5, 1, 4, 9, 0, -1], "sqrt")
    if k == 9:
        return Sys([["-", mul(num(A()), X), num(A())]], [x], wide(), "linear")
    if k == 10:
        return Sys([["-", mul(X, ["exp", ["neg", X]]), n(f17(round(r.uniform(0.05, 0.36), 2)))]], [x], [0, 0.5, 2, 3, 1, -1], "xexp")
    if k == 11:
        return Sys([["-", ["cos", X], X]], [x], wide(), "cosx")
    if k == 12:
        return Sys([["-", ["^", X, n(r.choice(["3", "5", "1.5", "0.5"]))], n(r.choice(["0", "1", "8", "2"]))]], [x], [1, 2, 0.5, 3, 0], "power")
    return Sys([["-", ["/", n("1"), X], n(f17(A(0.3, 4) or 1))]], [x], [0.1, 0.2, 1, 0, -1, 5], "reciprocal")


def multi(r, g):
    x, y, z, w = v("x"), v("y"), v("z"), v("w")
    A = lambda lo=-3, hi=3: round(r.uniform(lo, hi), r.choice([0, 1, 2]))
    pt = lambda k, s=3: [round(r.uniform(-s, s), 2) for _ in range(k)]
    k = r.randint(0, 10)
    if k == 0:
        R = A(1, 5)
        a, b = A(-1, 1), A(-1, 1)
        return Sys([["-", add(["^", x, n("2")], ["^", y, n("2")]), n(f17(R * R))], ["-", add(x, mul(num(a), y)), num(b)]], ["x", "y"], [pt(2), pt(2), [1, 1], [0, 0], [2, -1]], "circle")
    if k == 1:
        p, q = A(), A()
        return Sys([["-", mul(x, y), num(p * q)], ["-", add(x, y), num(p + q)]], ["x", "y"], [pt(2), pt(2), [p, q], [q, p], [1, 1]], "hyperbola")
    if k == 2:
        a, b = round(r.uniform(0.2, 1.3), 2), round(r.uniform(0.2, 1.3), 2)
        return Sys([["-", add(["cos", x], ["cos", y]), num(math.cos(a) + math.cos(b))], ["-", add(["sin", x], ["sin", y]), num(math.sin(a) + math.sin(b))]], ["x", "y"],
                   [[a + 0.2, b - 0.3], pt(2, 2), [0.5, 1], [1, 0.5]], "arms")
    if k in (3, 4):  # linear
        m = r.choice([2, 3, 4])
        nm = ["x", "y", "z", "w"][:m]
        d, b = depend(r, m, m, r.choice([m, m, m, m - 1]), consistent=r.random() < 0.6)
        es = []
        for i in range(m):
            e = num(-b[i])
            for j in range(m):
                if d[i * m + j]:
                    e = add(e, mul(num(d[i * m + j]), v(nm[j])))
            es.append(e)
        if not all(any(q in gen.vars_of(e) for e in es) for q in nm):
            return multi(r, g)
        return Sys(es, nm, [pt(m), [1] * m, [0] * m], "linear%d" % m)
    if k == 5:
        p = pt(3, 2)
        return Sys([["-", add(x, mul(y, z)), num(p[0] + p[1] * p[2])], ["-", add(["^", y, n("2")], x), num(p[1] ** 2 + p[0])], ["-", add(["sin", z], y), num(math.sin(p[2]) + p[1])]], ["x", "y", "z"],
                   [[t + round(r.uniform(-0.3, 0.3), 2) for t in p], pt(3), [1, 1, 1]], "mixed3")
    if k == 6:
        p = round(r.uniform(0.3, 2), 2)
        return Sys([["-", ["exp", x], y], ["-", add(x, y), num(p + math.exp(p))]], ["x", "y"], [pt(2, 2), [1, 1], [0, 3]], "expline")
    if k == 7:
        q = pt(4, 2)
        return Sys([["-", add(x, ["^", y, n("2")]), num(q[0] + q[1] ** 2)], ["-", add(y, mul(num(A()), z)), num(A())], ["-", add(z, w), num(A())], ["-", ["-", w, mul(num(0.1), x)], num(A())]],
                   ["x", "y", "z", "w"], [q, pt(4), [1] * 4], "mixed4")
    if k == 8:  # not symmetric, Rosenbrock's
        return Sys([mul(n("10"), ["-", y, ["^", x, n("2")]]), ["-", n("1"), x]], ["x", "y"], [[-1.2, 1], pt(2), [1, 1], [0, 0]], "rosenbrock")
    # planted root of random equations
    m = r.choice([1, 2, 2, 3])
    nm = ["x", "y", "z"][:m]
    root = {q: round(r.uniform(0.3, 2.5), 2) for q in nm}
    es = []
    for i in range(m):
        e = g.smooth(r.randint(2, 6), nm)
        t = add(e, mul(num(A(1, 4)), v(nm[i])))
        es.append(t)
    es = [["-", e, num(val(e, root))] for e in es]
    if any("nan" in json.dumps(e) for e in es):
        return multi(r, g)
    s = [root[q] for q in nm]
    return Sys(es, nm, [[t + round(r.uniform(-0.2, 0.2), 2) for t in s], pt(m), [1] * m, s], "planted%d" % m)


def val(e, at):
    """a plain value, only to place roots and starting points; it decides nothing"""
    try:
        t = e[0]
        if t == "n":
            return float(e[1])
        if t == "v":
            return at[e[1]]
        a = [val(c, at) for c in e[1:]]
        if len(a) == 1:
            f = {"neg": lambda q: -q, "pos": lambda q: q, "sin": math.sin, "cos": math.cos, "tan": math.tan, "asin": math.asin, "acos": math.acos, "atan": math.atan,
                 "sqrt": math.sqrt, "log": math.log, "log2": math.log2, "log10": math.log10, "exp": math.exp}[t]
            return f(a[0])
        q = {"+": lambda p, q: p + q, "-": lambda p, q: p - q, "*": lambda p, q: p * q, "/": lambda p, q: p / q, "^": lambda p, q: p ** q}[t](*a)
        return q if isinstance(q, float) else float("nan")
    except (ValueError, ZeroDivisionError, OverflowError, TypeError):
        return float("nan")


def solve(s, start=None, m="", tab=True, names=None):
    c = {"op": "solve", "eqs": s.eqs, "m": m if tab else ""}  # without a table the configured method is used
    if tab:
        nm = names or s.names
        st = start if isinstance(start, list) else [start]
        c["tab"] = [[x, f17(t)] for x, t in zip(nm, st)]
    return c


def a_system(r, g):
    s = uni(r) if r.random() < 0.45 else multi(r, g)
    if r.random() < 0.2:  # equations in other units
        s.eqs = [mul(n(f17(float("%.3g" % 10 ** r.uniform(-4, 14)))), e) if r.random() < 0.7 else e for e in s.eqs]
    if r.random() < 0.2:  # unknowns in other units
        c = {x: float("%.3g" % 10 ** r.uniform(-3, 7)) for x in s.names}

        def unit(e):
            return (["/", e, n(f17(c[e[1]]))] if e[0] == "v" and e[1] in c else e) if e[0] in "nv" else [e[0]] + [unit(a) for a in e[1:]]
        s.eqs = [unit(e) for e in s.eqs]
        s.starts = [[t * c[x] for t, x in zip(p if isinstance(p, list) else [p], s.names)] for p in s.starts]
    return s


def start_of(r, s):
    p = r.choice(s.starts)
    return p if isinstance(p, list) else [p]


EPS = ["1e-09", "1e-09", "1e-09", "1e-06", "1e-12", "0.001"]


def mc_solver(ctx):
    return [dict(module="MC_Solver", env={"PTS": str(ctx.q(2, 3)), "LM": lm}) for lm in ("0", "1")]


class SolverProp(Prop):
    limit = 60


@prop("C22")
class C22(SolverProp):
    def models(self, ctx):
        return mc_solver(ctx)

    def sessions(self, ctx):
        g = ctx.G()
        r = g.r
        out = []
        for i in range(ctx.q(500, 3000)):
            s = [reset(eps=r.choice(EPS), max=r.choice([20, 40, 60]), indet=r.random() < 0.3)]
            for _ in range(3):
                y = a_system(r, g)
                meth = r.choice(["nr", "lm"])
                c = solve(y, start_of(r, y), meth)
                if r.random() < 0.25 and y.names:  # tables in another order, or with further names
                    z = list(zip(y.names, start_of(r, y)))
                    if r.random() < 0.4:
                        z.append(("unused", 1.5))
                    r.shuffle(z)
                    c["tab"] = [[a, f17(b)] for a, b in z]
                s.append(c)
            out.append(s)
        ctx.note("systems", 3 * len(out))
        return out


@prop("C23")
class C23(SolverProp):
    def models(self, ctx):
        return mc_solver(ctx)

    def sessions(self, ctx):
        g = ctx.G()
        r = g.r
        out = []
        for i in range(ctx.q(200, 2000)):
            y = a_system(r, g)
            s = [reset(max=r.choice([30, 60, 100]))]
            for meth in ("nr", "lm"):
                for _ in range(2):
                    st = start_of(r, y)
                    s.append(solve(y, st, meth))
                z = list(zip(y.names, start_of(r, y)))
                r.shuffle(z)
                s.append({"op": "solve", "eqs": y.eqs, "m": meth, "tab": [[a, f17(b)] for a, b in z]})
            # the configured start
            init = round(r.uniform(-3, 3), 2)
            s += [solve(y, tab=False), {"op": "cfg", "set": {"method": r.choice([0, 1])}}, {"op": "cfg", "set": {"init": f17(init)}}, solve(y, tab=False),
                  {"op": "cfg", "set": {"method": r.choice([0, 1])}}, solve(y, tab=False), solve(y, start_of(r, y), "")]
            # from a point near a root and from the root itself, as far as it can be told
            out.append(s)
        ctx.note("systems with several starts", len(out))
        return out


@prop("C24")
class C24(SolverProp):
    def models(self, ctx):
        return mc_solver(ctx)

    def sessions(self, ctx):
        g = ctx.G()
        r = g.r
        out = []
        for i in range(ctx.q(220, 1500)):  # many systems and starts: roundabout ways are rare
            y = a_system(r, g)
            s = [reset(throw=r.random() < 0.7, max=r.choice([30, 60, 100]))]
            for _ in range(4):
                s.append(solve(y, start_of(r, y) if r.random() < 0.5 else [round(r.uniform(-1, 1) * r.choice([1, 3, 10, 100]), 3) for _ in y.names], r.choice(["nr", "nr", "lm"])))
            out.append(s)
        for i in range(ctx.q(180, 1800)):
            y = a_system(r, g)
            thr = r.random() < 0.6
            s = [reset(throw=thr, init="1")]
            st = start_of(r, y)
            big = r.random() < 0.1
            if big:
                st = [r.choice([1e6, -1e8, 1e30, 1e200, -1e300]) for _ in st]
            meth = r.choice(["nr", "lm"])
            for k in [0, 1, 2, 3, 4, 5, 6, 8, 10, 14, 20, r.choice([30, 50, 100, 200])]:
                s += [{"op": "cfg", "set": {"max": k}}, solve(y, st, meth)]
            out.append(s)
        ctx.note("systems, many with twelve limits", len(out))
        return out


@prop("C26")
class C26(SolverProp):
    def models(self, ctx):
        return mc_solver(ctx)

    def sessions(self, ctx):
        g = ctx.G()
        r = g.r
        out = []
        nm4 = ["x", "y", "z", "w"]
        for i in range(ctx.q(520, 4000)):
            m, k = r.randint(0, 4), r.randint(0, 4)
            if m == 0 and k == 0:
                m = 1
            nm = nm4[:k]
            es = []
            root = [r.randint(-2, 2) for _ in nm]
            good = r.random() < 0.6
            for a in range(m):
                if not nm or r.random() < 0.06:
                    es.append(n(r.choice(["0", "0", "0", "1", "-2", "1e-10", "1e-5"])))
                    continue
                c = r.random()
                if c < 0.6:
                    co = [r.choice([0, 1, -1, 2, 3]) for _ in nm]
                    rhs = sum(p * q for p, q in zip(co, root)) + (0 if good else r.choice([0, 1, -2]))
                    e = num(-rhs)
                    for q, x in zip(co, nm):
                        if q:
                            e = add(e, mul(num(q), v(x)))
                else:
                    j = r.randrange(k)
                    e = ["-", ["^", v(nm[j]), n("2")], n(str(root[j] ** 2 if good else r.choice([1, 2, 4])))]
                    if c > 0.8:
                        l = r.randrange(k)
                        e = add(e, ["-", v(nm[l]), num(root[l])])
                es.append(e)
            if r.random() < 0.15 and es and m < 4:  # an equation twice
                es.append(es[0])
            meth = r.choice(["nr", "lm"])
            s = [reset(indet=r.random() < 0.5, init=f17(r.choice([1, 0, 0.5, 2])), max=40)]
            tab = lambda st: [[x, f17(t)] for x, t in zip(nm, st)]
            for meth in ("nr", "lm"):
                s.append({"op": "solve", "eqs": es, "m": meth, "tab": tab([r.choice([-2, -1, 0.5, 1, 2, 3]) for _ in nm])})
                if all(gen.vars_of(e) <= set(nm) for e in es) and es:
                    s.append({"op": "solve", "eqs": es, "m": meth, "tab": tab(root)})
                if es:
                    s += [{"op": "cfg", "set": {"method": int(meth == "lm")}}, {"op": "solve", "eqs": es, "m": ""}]
            out.append(s)
        # a table with fewer names than unknowns, nothing at all
        ctx.note("shapes", len(out))
        return out


# ------------------------------------------------------------------------------------------------ C29 line searches
@prop("C29")
class C29(SolverProp):
    def sessions(self, ctx):
        g = ctx.G()
        r = g.r
        out = []
        names = ["x", "y", "z"]
        for i in range(ctx.q(900, 7000)):
            k = r.choice([1, 1, 2, 2, 3])
            nm = names[:k]
            m = k if r.random() < 0.8 else r.choice([1, 2, 3])
            es = []
            for a in range(m):
                c = r.randint(0, 5)
                x = v(nm[a % k])
                if c == 0:
                    e = ["-", ["^", x, n(r.choice(["2", "3", "4"]))], n(r.choice(["0", "1", "2", "5"]))]
                elif c == 1:
                    e = g.smooth(r.randint(2, 6), nm)
                elif c == 2:
                    e = add(*[mul(num(r.choice([-2, -1, 0.5, 1, 3])), v(q)) for q in nm])
                elif c == 3:
                    e = ["-", ["exp", x], n("2")]
                elif c == 4:
                    e = ["atan", ["-", x, n("0.5")]]
                else:
                    e = ["-", ["sin", x], n("0.3")]
                if k > 1 and r.random() < 0.5:
                    e = add(e, mul(num(r.choice([0.1, 1, -1])), v(nm[(a + 1) % k])))
                es.append(e)
            # the derivative, as the caller passes it, or something else (the search must use what it is given)
            if r.random() < 0.3 and m == k:
                df = [g.smooth(r.randint(1, 4), nm) for _ in range(k * m)]
            else:
                df = []
                for b in range(k):
                    for a in range(m):
                        df.append(deriv(es[a], nm[b]))
            x0 = [f17(round(r.uniform(-2, 2), 2)) for _ in nm]
            d = [f17(round(r.uniform(-3, 3) * 10.0 ** r.choice([0, 0, 0, 1, -2, 2]), 3)) if r.random() < 0.93 else "0" for _ in nm]
            c = {"op": "armijo", "vs": nm, "eqs": es, "df": {"r": k, "c": m, "e": df}, "x": x0, "dir": d}
            s = [reset(throw=r.random() < 0.6), c]
            s += [{"op": "findalpha", "vs": nm, "eqs": es, "x": x0, "dir": d}]
            if r.random() < 0.4:
                s.append({"op": "findalpha", "vs": nm, "eqs": es, "x": x0, "dir": d, "unc": r.choice(["1e-05", "0.1", "1e-12", "0.5"])})
            out.append(s)
        ctx.note("functions", len(out))
        return out


def deriv(e, x):
    """a derivative for the caller's side of the line search; any would do"""
    t = e[0]
    if t == "n":
        return n("0")
    if t == "v":
        return n("1" if e[1] == x else "0")
    if x not in gen.vars_of(e):
        return n("0")
    a = e[1]
    if t in ("neg", "pos"):
        return [t, deriv(a, x)]
    one = {"sin": lambda: ["cos", a], "cos": lambda: ["neg", ["sin", a]], "tan": lambda: ["^", ["cos", a], n("-2")], "exp": lambda: e, "log": lambda: ["/", n("1"), a],
           "sqrt": lambda: ["/", n("0.5"), e], "atan": lambda: ["/", n("1"), ["+", n("1"), ["^", a, n("2")]]], "log2": lambda: ["/", n("1.4426950408889634"), a],
           "log10": lambda: ["/", n("0.4342944819032518"), a], "asin": lambda: ["^", ["-", n("1"), ["^", a, n("2")]], n("-0.5")], "acos": lambda: ["neg", ["^", ["-", n("1"), ["^", a, n("2")]], n("-0.5")]]}
    if t in one:
        return mul(one[t](), deriv(a, x))
    b = e[2]
    if t in "+-":
        return [t, deriv(a, x), deriv(b, x)]
    if t == "*":
        return add(mul(deriv(a, x), b), mul(a, deriv(b, x)))
    if t == "/":
        return ["/", ["-", mul(deriv(a, x), b), mul(a, deriv(b, x))], ["^", b, n("2")]]
    if t == "^":
        if x not in gen.vars_of(b):
            return mul(mul(b, ["^", a, ["-", b, n("1")]]), deriv(a, x))
        return mul(e, add(mul(deriv(b, x), ["log", a]), ["/", mul(b, deriv(a, x)), a]))
    return n("0")


# ------------------------------------------------------------------------------------------------ C16 deep expressions
@prop("C16")
class C16(Prop):
    editions = ["librel", "singledbg", "single"]
    limit = 60

    def models(self, ctx):
        return [dict(module="MC_Deep")]

    stack = 1 << 19  # no work may need a stack that grows with the expression: 512 kB leave some 12 bytes per level

    def sessions(self, ctx):
        r = ctx.G().r
        out = []
        ALL = ["vars", "eq", "neq", "subs", "subsm", "subd", "self", "unbound", "simp", "diff", "diff2", "mat", "jac", "str", "parent"]
        flat = ["addL", "subL", "mulL", "addR", "subR", "neg", "negp", "paren", "zig", "sgn", "comb", "bal"]
        slow = ["mulL", "divR", "powR", "powL", "sin", "funs"]  # their derivatives are of quadratic size
        kinds = flat + [k for k in slow if k not in flat]

        def one(kind, n, via, do):
            x = {"sin": "0", "funs": "0", "powR": "1", "powL": "1"}.get(kind) or r.choice(["1", "0.5", "-3"])
            return [reset(), {"op": "deep", "kind": kind, "n": n, "x": x, "via": via, "do": do}]
        for kind in kinds:
            for via in ("parse", "ops"):
                able = [w for w in ALL if not (w == "diff2" and kind not in flat)]
                for n in (0, 1, 2, 3, 7, 50, 300):
                    out.append(one(kind, n, via, [w for w in able if not (w == "diff2" and n == 300 and kind in slow)]))
                big = [r.randint(40000, 44000)] if ctx.quick else [44000, 300000]
                for n in big:
                    do = [w for w in able if not (w in ("diff", "diff2", "jac") and kind in slow)]
                    if ctx.quick:
                        out += [one(kind, n, via, do[k::3]) for k in range(3)]
                        # five times as much for a few of them: work that grows with the square of the size does not end in time
                        r.shuffle(do)
                        out += [one(kind, 200000, via, do[:2]), one(kind, 200000, via, do[2:4])]
                    else:
                        out += [one(kind, n, via, [w]) for w in do] + [one(kind, n, via, [])]
        for k in (1, 100, 5000, 100000, 1000000):
            for kind in ("name", "badname", "literal"):
                out.append([reset(), {"op": "long", "kind": kind, "n": k}])
        ctx.note("chains", len(out))
        return out
    repeat = False


# ------------------------------------------------------------------------------------------------ C30 reports
@prop("C30")
class C30(Prop):
    def sessions(self, ctx):
        g = ctx.G()
        r = g.r
        out = [[reset()] + [{"op": "errinfo", "e": e, "t": enc(t)} for e in range(16) for t in ("", "x", "tip: more", "a \"quoted\" text", "\u00e9")]]
        cmds = []
        # texts that are not accepted, of every kind
        texts = props.bad_texts(g, ctx.q(1500, 15000))
        for t in texts:
            cmds.append(props.parse_item(g, t)[:1])
        # several errors in one text, in input order
        for _ in range(ctx.q(500, 4000)):
            bits = []
            for _ in range(r.randint(2, 7)):
                bits.append(r.choice(["x", "1", "y2", "+", "*", "^", "/", " x", "3.5", " 2", " zz", "1e3", "  "]))
            cmds.append(props.parse_item(g, "".join(bits))[:1])
        ctx.note("texts", len(cmds))
        out += chunks(cmds, 60)
        # mathematical errors by each way they arise
        S = lambda f, **kw: dict({"op": "sym", "f": f}, **kw)
        cmds = []
        sysd = linear_cmds(ctx, r, ctx.q(250, 2000))
        cmds += sysd
        for _ in range(ctx.q(150, 1000)):
            k = r.choice([2, 3])
            A = mat(r, k, k, "small")
            cmds.append({"op": "mat", "f": "inv", "A": A})
        for _ in range(ctx.q(120, 800)):
            a, b, c, d = (r.randint(1, 3) for _ in range(4))
            m1, m2 = props2.sym(r, g, a, b, ["x", "y"], 3), props2.sym(r, g, c, d, ["x", "y"], 3)
            cmds.append([S("set", d="A", m=m1), S("set", d="B", m=m2), S("set", d="C", m=props2.sym(r, g, 1, 1, ["x"], 1)), S("mul", a="A", b="B", d="C")])
        for _ in range(ctx.q(150, 900)):
            y = a_system(r, g)
            cmds.append(solve(y, start_of(r, y), r.choice(["nr", "lm"])))
        for _ in range(ctx.q(100, 800)):
            m, k = r.randint(1, 3), r.randint(1, 3)
            nm = ["x", "y", "z"][:k]
            es = [add(num(r.randint(-3, 3)), *[mul(num(r.randint(-2, 2)), v(q)) for q in nm]) for _ in range(m)]
            cmds.append({"op": "solve", "eqs": es, "m": r.choice(["nr", "lm"]), "tab": [[q, "1"] for q in nm]})
        # invalid values
        for e in (["/", n("1"), n("0")], ["log", n("0")], ["sqrt", ["neg", n("1")]], ["asin", n("2")], ["^", n("0"), ["neg", n("1")]], ["exp", n("1000")], ["acos", ["neg", n("3")]], ["log10", ["neg", n("1")]],
                  ["+", n("1"), ["/", n("0"), n("0")]], ["*", n("0"), ["log2", n("0")]]):
            cmds.append([{"op": "build", "d": "a", "e": e}, {"op": "vpa", "a": "a"}, {"op": "calc", "a": "a"}])
            cmds.append([{"op": "build", "d": "a", "e": ["+", v("u"), e]}, {"op": "vpa", "a": "a"}, {"op": "calc", "a": "a"}])
        # names
        for t in ("1x", "", "a b", "x$", "-", "9", "x.y", "\u00e9", "sin"):
            cmds.append({"op": "var", "d": "a", "t": enc(t)})
        for t in ("nope", "x2", ""):
            cmds.append([{"op": "vt", "f": "init", "d": "t", "ps": [["x", "1"]]}, {"op": "vt", "f": "get", "a": "t", "n": t}])
        ctx.note("failing operations", len(cmds))
        return out + chunks(cmds, 20)


# ------------------------------------------------------------------------------------------------ C25 settings
def probes(r):
    """operations whose outcome depends on a setting, and some that fail"""
    x, y = v("x"), v("y")
    X2 = ["-", ["^", x, n("2")], n("2")]
    two = mul(["-", x, n("2")], ["-", x, n("-3")] if False else ["+", x, n("3")])
    S = lambda es, m="", tab=None: dict({"op": "solve", "eqs": es, "m": m}, **({"tab": tab} if tab else {}))
    d = r.choice(["0.0005", "5e-10", "0.002", "1e-11", "-0.0005"])
    f = lambda a: f17(float(a))
    k = r.choice(["0.0001", "1e-10", "0.01", "1e-13"])
    return [
        [S([two])], [S([two], "nr", [["x", r.choice(["3", "-4", "0.5"])]])], [S([two], "lm", [["x", r.choice(["3", "-4", "0.5"])]])], [S([two], "", [["x", r.choice(["3", "-4", "10"])]])],
        [S([X2], "", [["x", "50"]])], [S([X2])], [S([add(x, y, num(-3))])], [S([add(x, y, num(-3))], "nr", [["x", "1"], ["y", "0"]])], [S([["-", ["sin", x], mul(n("0.3"), x)]])],
        [S([["-", x, n(f(1 + float(d)))]], r.choice(["nr", "lm"]), [["x", "1"]])],
        [S([["log", x]], "", [["x", "-1"]])], [S([["-", ["sqrt", x], n("1")]], r.choice(["nr", "lm"]), [["x", "0"]])], [S([["-", ["asin", x], n("0.5")]], r.choice(["", "nr", "lm"]), [["x", r.choice(["1", "-1", "2"])]])],
        [S([add(x, y, num(-2)), ["-", ["^", x, n("0.5")], n("1")]], "nr", [["x", "0"], ["y", "1"]])], [S([add(x, y, num(-2)), ["-", x, y]])],
        [lin(1, 2, [1, 2], [3])], [lin(1, 1, [k], ["1"])], [lin(2, 2, [k, 0, 0, 1], [1, 1])], [lin(2, 2, [1, 2, 2, 4], [1, 2])], [lin(2, 2, [1, 2, 2, 4], ["1", f(2 + float(d))])],
        [{"op": "mat", "f": "eqnum", "A": {"r": 1, "c": 2, "d": [d, "0"]}, "x": "0"}], [{"op": "mat", "f": "iszero", "A": {"r": 2, "c": 1, "d": [d, "0"]}}],
        [{"op": "mat", "f": "eqmat", "A": {"r": 1, "c": 1, "d": ["1"]}, "B": {"r": 1, "c": 1, "d": [f(1 + float(d))]}}], [{"op": "mat", "f": "inv", "A": {"r": 2, "c": 2, "d": [k, "0", "0", "1"]}}],
        [{"op": "vt", "f": "init", "d": "t", "ps": [["x", "1"]]}, {"op": "vt", "f": "init", "d": "u", "ps": [["x", f(1 + float(d))]]}, {"op": "vt", "f": "eq", "a": "t", "b": "u"}],
        [{"op": "build", "d": "a", "e": ["/", n("1"), n("0")]}, {"op": "vpa", "a": "a"}, {"op": "calc", "a": "a"}], [{"op": "build", "d": "a", "e": ["+", n("2"), ["sqrt", ["neg", n("1")]]]}, {"op": "vpa", "a": "a"}],
        [{"op": "parse", "d": "a", "t": enc("1+*2")}], [{"op": "parse", "d": "a", "t": enc("x^2+sin(x)")}, {"op": "diff", "a": "a", "ca": "c", "d": "b", "v": "x", "n": 1, "pts": [{"x": "1.3"}]}],
        [{"op": "build", "d": "a", "e": ["+", ["*", x, n("1")], n("0")]}, {"op": "simp", "a": "a", "pts": [{"x": "1.3"}]}], [{"op": "build", "d": "a", "e": ["&", x, n("3")]}, {"op": "diff", "a": "a", "ca": "c", "d": "b", "v": "x", "n": 1, "pts": [{"x": "3"}]}],
        [{"op": "tostr", "x": r.choice(["0.1", "1e-12", "3", "1e20"])}],
        [{"op": "armijo", "vs": ["x"], "eqs": [X2], "df": {"r": 1, "c": 1, "e": [mul(n("2"), x)]}, "x": ["5"], "dir": ["-8"]}]]


@prop("C25")
class C25(SolverProp):
    def sessions(self, ctx):
        g = ctx.G()
        r = g.r
        hs = tlc_histories(ctx, "GenCfg", 2) if ctx.round == 0 else []
        if not ctx.quick and ctx.round == 0:
            hs += tlc_histories(ctx, "GenCfg", 3)
        out = []

        def after(cs):
            return [dict(c, cfgafter=1) for c in cs]
        for h in hs:
            P = probes(r)
            s = [reset()] + h
            for cs in r.sample(P, 10):
                s += after(cs)
            out.append(s)
        # longer histories with probes in between
        for _ in range(ctx.q(150, 1500)):
            s = [reset()]
            for _ in range(r.randint(3, 8)):
                if r.random() < 0.2:
                    s.append({"op": "cfgreset"})
                else:
                    ks = r.sample(["throw", "eps", "log", "max", "method", "init", "indet"], r.randint(1, 3))
                    s.append({"op": "cfg", "set": {k: {"throw": lambda: r.random() < 0.5, "eps": lambda: r.choice(["0.001", "1e-12", "1e-06", "1e-09"]), "log": lambda: r.randint(0, 7), "max": lambda: r.choice([0, 1, 3, 10, 100]),
                                                       "method": lambda: r.randint(0, 1), "init": lambda: r.choice(["-2.5", "4", "0", "1.5"]), "indet": lambda: r.random() < 0.5}[k]() for k in ks}})
                P = probes(r)
                for cs in r.sample(P, 4):
                    s += after(cs)
                s.append({"op": "cfgget"})
            out.append(s)
        ctx.note("histories with probes", len(out))
        return out


# ------------------------------------------------------------------------------------------------ C28 editions
def tokens(line):
    """the outcome of an event as a sequence of [kind, text]: numbers ("n") and all else ("t"); with the place "v" instead of
    "t" what a difference in rounding may decide: the values of expressions and all that the numeric algorithms return"""
    import re
    ev = json.loads(line)
    out = ev["out"]
    numeric = ev["op"] in ("solve", "linear", "armijo", "findalpha", "vpa", "calc") or (ev["op"] == "mat" and ev.get("f") in ("inv", "det", "adj", "pos", "pd", "posdef"))

    def words_of(s, t):
        return [["n", w] if re.fullmatch(r"-?(\d+\.?\d*(e[-+]?\d+)?)", w) else [t, w]
                for w in re.findall(r"(?<![A-Za-z_0-9])-?\d+\.?\d*(?:e[-+]?\d+)?|\S+|\s+", s)]

    def flat(x, key="", t="t"):
        if isinstance(x, dict):
            r = []
            for k in sorted(x):
                if k == "cout":  # the amount of output is judged by itself
                    r += [["t", k], ["t", str(x[k] > 0)]]
                else:
                    r += [[t, k]] + flat(x[k], k, "v" if k == "vals" else t)
            return r
        if isinstance(x, list):
            if key in ("str", "what", "text", "info") and all(isinstance(c, int) for c in x):
                s = "".join(map(chr, x))
                if key == "what" and out.get("k") != "parse":  # the numbers of a message come after its first words
                    m = re.match(r'([a-z ]+): "', s)
                    if m:
                        return words_of(m.group(1), t) + [["v", s[m.end():]]]
                return words_of(s, t)
            return [[t, "["]] + [w for c in x for w in flat(c, key, t)] + [[t, "]"]]
        if isinstance(x, str):
            return words_of(x, t)
        return [[t, json.dumps(x)]]
    return flat(out, "", "v" if numeric else "t")


@prop("C28")
class C28(Prop):
    editions = ["lib", "single", "librel", "singledbg"]
    limit = 60

    def sessions(self, ctx):
        r = ctx.G().r
        out = []
        take = ctx.q(14, 120)
        for pid in sorted(props.PROPS):
            if pid in ("C28", "C16", "C14"):
                continue
            sub = Ctx2(ctx, pid)
            ss = props.PROPS[pid].sessions(sub)
            k = [s for s in r.sample(ss, min(take, len(ss))) if len(json.dumps(s)) < 60000]
            ctx.note("sessions of " + pid, len(k))
            out += k
        sub = Ctx2(ctx, "C14")
        k = props.PROPS["C14"].sessions(sub)
        out += r.sample(k, min(2 * take, len(k)))
        ctx.note("sessions of C14", min(2 * take, len(k)))
        return out

    def compare(self, ctx, ss, logs):
        """events of two builds that differ in some way: two builds of one edition, which are to agree in all, and the two
        editions, which may round differently; judged by spec/Pair.tla"""
        rows, where = [], []
        for base, ed in (("lib", "librel"), ("single", "singledbg"), ("lib", "single")):
            for i, (p, q) in enumerate(zip(logs[base], logs[ed])):
                for k in range(max(len(p), len(q))):
                    a, b = p[k] if k < len(p) else None, q[k] if k < len(q) else None
                    if a == b:
                        continue
                    where.append((base, ed, i, k))
                    rows.append({"a": tokens(a) if a else [["t", "nothing"]], "b": tokens(b) if b else [["t", "nothing"]], "same": (base, ed) != ("lib", "single")})
                    break  # the first difference of a session
        return rows, where

    def judge(self, ctx, rows, tag="pair"):
        import os
        if not rows:
            return []
        path = os.path.join(ctx.work, tag + ".ndjson")
        with open(path, "w") as f:
            for x in rows:
                f.write(json.dumps(x) + "\n")
        rc, out, _ = core.tlc("Pair.tla", "Pair.cfg", ctx.work, tag, env={"TRACE": path})
        import re
        done = re.findall(r'"DONE (\d+)"', out)
        if not done or int(done[-1]) != len(rows):
            raise core.Broken("pairs: " + out[-3000:])
        return [int(m) - 1 for m in re.findall(r'"BAD (\d+)"', out)]

    def run_all(self, ctx, ss, tag):
        from concurrent.futures import ThreadPoolExecutor
        logs = {}
        groups = core.shards(ss, core.JOBS)
        for ed in self.editions:
            logs[ed] = [None] * len(ss)

            def one(gi):
                for i, e in zip(groups[gi], core.execute(ctx.exes[ed], [ss[i] for i in groups[gi]], "%s%d-%s" % (tag, gi, ed), ctx.work, self.limit)):
                    logs[ed][i] = e
            with ThreadPoolExecutor(core.JOBS) as ex:
                list(ex.map(one, range(len(groups))))
        return logs

    def round(self, ctx):
        ss = props.respelled(ctx, self.sessions(ctx))
        bad = core.conform(ss, ctx.exes, ctx.work, ctx.stats, self.limit, self.editions)
        res = [{"property": self.pid, "edition": ed, "session": ss[i], "event": k, "why": why} for (ed, i, k, why) in bad]
        logs = self.run_all(ctx, ss, "c")
        ctx.note("events compared between builds", sum(len(e) for e in logs["lib"]) * 3)
        rows, where = self.compare(ctx, ss, logs)
        ctx.note("events that differ in some way", len(rows))
        for j in self.judge(ctx, rows):
            base, ed, i, k = where[j]
            res.append({"property": self.pid, "edition": ed, "session": ss[i], "event": k, "pair": 1, "why": "%s and %s differ: %s / %s" % (ed, base, (logs[base][i] + [""])[k][-600:], (logs[ed][i] + [""])[k][-600:])})
        return res, [ss[(7 * j + 1) % len(ss)][:4] for j in range(min(4, len(ss)))]

    def confirm(self, ctx, violations):
        pairs = [x for x in violations if x.get("pair")]
        out = super().confirm(ctx, [x for x in violations if not x.get("pair")])
        for x in pairs[:6]:
            logs = self.run_all(ctx, [x["session"][: x["event"] + 1]], "k")
            rows, where = self.compare(ctx, [x["session"]], logs)
            if self.judge(ctx, rows, "pairk"):
                out.append(dict(x, session=x["session"][: x["event"] + 1]))
        return out


class Ctx2(props.Ctx):
    """the stimuli of another property, drawn at the size of the quick check"""
    def __init__(self, ctx, pid):
        super().__init__(pid, "quick", ctx.seed + 1000, ctx.work, ctx.stats, ctx.exes)
        self.round = ctx.round
