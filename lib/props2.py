"""Properties of matrices, tables, the solvers, the settings, the editions and the error reports."""
import json, math, os
import core, gen
from gen import enc, reset, v, n, f17
from props import Prop, prop, chunks, build_cmd, obs_cmd, words, tlc_histories


# ------------------------------------------------------------------------------------------------ numbers, matrices
def entry(r, kind):
    if kind == "int":
        return str(r.randint(-9, 9))
    if kind == "small":
        return str(r.choice([0, 0, 1, -1, 2, -2, 3]))
    if kind == "dec":
        return f17(round(r.uniform(-10, 10), r.randint(0, 4)))
    if kind == "wide":
        return f17(r.uniform(-1, 1) * 10.0 ** r.randint(-9, 9))
    if kind == "pos":
        return f17(round(r.uniform(0.1, 9), 3))
    if kind == "tiny":
        return f17(r.choice([-1, 1]) * r.choice([0, 1e-9, 9e-10, 1.1e-9, 5e-10, 2e-9, 1e-10, 1e-8, 1]))
    return kind


def mat(r, rows, cols, kind=None):
    kind = kind or r.choice(["int", "int", "small", "dec", "wide", "pos"])
    m = {"r": rows, "c": cols, "d": [entry(r, kind) for _ in range(rows * cols)]}
    if (rows, cols) in ((2, 2), (3, 3), (2, 3)) and r.random() < 0.3:
        m["il"] = 1
    return m


def symmetric(m):
    k = m["r"]
    for i in range(k):
        for j in range(i):
            m["d"][i * k + j] = m["d"][j * k + i]
    return m


def tweak(r, m, d):
    """m with one entry moved by d"""
    m = json.loads(json.dumps(m))
    if m["d"]:
        i = r.randrange(len(m["d"]))
        m["d"][i] = f17(float(m["d"][i]) + d)
    return m


# ------------------------------------------------------------------------------------------------- C19 numeric matrices
def mat_cmds(ctx, r, k):
    out = []
    dim = lambda: r.choice([1, 1, 2, 2, 3, 3, 4, 5, 6])
    for i in range(k):
        R, C = dim(), dim()
        A = mat(r, R, C)
        V = mat(r, R, 1)
        x = entry(r, r.choice(["int", "dec", "wide", "small"]))
        eps = r.choice(["1e-09", "1e-09", "0.001", "0.5", "1e-12"])
        e = float(eps)
        near = lambda: r.choice([0, 0, e * 0.5, -e * 0.5, e * 0.99, -e * 0.99, e * 1.01, -e * 1.01, e, -e, 2 * e, 1, -3.0])
        cs = []
        add = lambda f, **kw: cs.append(dict({"op": "mat", "f": f}, **kw))
        B, W = mat(r, R, C), mat(r, R, 1)
        for f in ("add", "addeq", "sub"):
            add(f, A=A, B=B)
        add("neg", A=A)
        add("scale", A=A, x=x)
        add("lscale", A=A, x=x)
        add("mul", A=A, B=mat(r, C, dim()))
        add("tr", A=A)
        i0, j0 = r.randrange(R), r.randrange(C)
        add("row", A=A, i=i0, j=r.choice([0, j0]))
        add("col", A=A, i=j0, j=r.choice([0, i0]))
        add("setrow", A=A, i=i0, j=r.choice([0, j0]), x=x)
        add("setcol", A=A, i=j0, j=r.choice([0, i0]), x=x)
        add("swaprow", A=A, i=i0, j=r.randrange(R))
        add("swapcol", A=A, i=j0, j=r.randrange(C))
        add("resize", A=A, i=dim(), j=dim())
        for f in ("zero", "norm2", "norminf", "normneginf", "min", "iszero", "tovec", "str"):
            add(f, A=A)
        add("copy", A=A, x=x)
        add("setvalue", A=A, x=x)
        add("value", A=A, i=i0, j=j0, x=x)
        add("ones", A=mat(r, R, R))
        a = min(i0, r.randrange(R))
        add("maxabsrow", A=A, i=a, j=r.randint(a, R - 1), col=j0)
        D = mat(r, R, C, r.choice(["pos", "wide", "dec"]))
        add("eachdiv", A=A, B=D)
        add("allless", A=A, B=B)
        add("allless", A=A, B=dict(A, d=[f17(float(t) + r.choice([1, 2, 1e-3])) for t in A["d"]]))
        add("allless", A=A, B=tweak(r, dict(A, d=[f17(float(t) + 1) for t in A["d"]]), -1))
        Z = {"r": R, "c": C, "d": [f17(near()) if r.random() < 0.5 else "0" for _ in range(R * C)]}
        add("iszero", A=Z)
        add("iszero", A={"r": R, "c": C, "d": ["0"] * (R * C)})
        add("eqnum", A=Z, x="0")
        K = {"r": R, "c": C, "d": [f17(float(x) + (near() if r.random() < 0.3 else 0)) for _ in range(R * C)]}
        add("eqnum", A=K, x=x)
        add("eqnum", A={"r": R, "c": C, "d": [x] * (R * C)}, x=x)
        add("eqmat", A=A, B=A)
        add("eqmat", A=A, B=tweak(r, A, near()))
        add("eqmat", A=A, B=tweak(r, tweak(r, A, near()), near()))
        add("tovec", A=V)
        for f in ("vadd", "vsub", "vmul", "dot", "vless"):
            add(f, A=V, B=W)
        add("vdiv", A=V, B=mat(r, R, 1, "pos"))
        add("vless", A=V, B=dict(V, d=[f17(float(t) + r.choice([1, 1, 1e-3])) for t in V["d"]]))
        add("vneg", A=V)
        add("vscale", A=V, x=x)
        add("vlscale", A=V, x=x)
        add("vresize", A=V, i=dim())
        add("vasmat", A=V, B=mat(r, 1, C))
        add("vat", A=V, i=i0, x=x)
        add("vinit", A=mat(r, 3, 1))
        add("vfill", A=V, i=dim(), x=x)
        add("fill", A=A, i=dim(), j=dim(), x=x)
        if i % 25 == 0:
            O = {"r": 0, "c": 0, "d": []}
            for f in ("add", "addeq", "sub"):
                add(f, A=O, B=O)
            for f in ("neg", "tr", "zero", "str"):
                add(f, A=O)
            add("scale", A=O, x=x)
            add("copy", A=O, x=x)
        out.append([reset(eps=eps)] + cs)
    return out


@prop("C19")
class C19(Prop):
    def sessions(self, ctx):
        g = ctx.G()
        ss = mat_cmds(ctx, g.r, ctx.q(120, 700))
        ctx.note("matrix operations", sum(len(s) - 1 for s in ss))
        return ss


# -------------------------------------------------------------------------------------------- C20 determinants, inverses
@prop("C20")
class C20(Prop):
    def models(self, ctx):
        return [dict(module="MC_Matrix", env={"N": n, "V": v, "SYM": y}) for n, v, y in [("2", "-22", "0"), ("3", "-11", "1")] + ctx.q([], [("3", "-11", "0"), ("3", "-22", "1")])]

    def sessions(self, ctx):
        g = ctx.G()
        r = g.r
        cmds = []

        def square(A, eps=None):
            k = A["r"]
            cs = [{"op": "mat", "f": "det", "A": A, "i": q} for q in {k, r.randint(1, k)}] + [{"op": "mat", "f": "pd", "A": A}, {"op": "mat", "f": "inv", "A": A}, {"op": "mat", "f": "adj", "A": A}]
            cmds.append([reset(eps=eps)] + cs if eps else cs)
        if ctx.round == 0:
            import itertools
            for d in itertools.product(["-1", "0", "1", "2"], repeat=4):
                square({"r": 2, "c": 2, "d": list(d)})
            ctx.note("2x2 matrices over -1..2", 256)
            tri = list(itertools.product(["0", "1", "-2"], repeat=9))
            r.shuffle(tri)
            for d in tri[:ctx.q(350, 4000)]:
                square({"r": 3, "c": 3, "d": list(d)})
            for d in ("0", "1", "-1", "3.5", "1e-9", "2e-9", "-2e-9", "5e-10", "-1e12"):
                square({"r": 1, "c": 1, "d": [d]})
        for i in range(ctx.q(500, 3000)):
            k = r.choice([1, 2, 2, 3, 3, 3, 4, 4, 5]) if i % 40 else 6
            A = mat(r, k, k)
            c = i % 6
            if c == 0:  # rows depend on each other
                A = mat(r, k, k, "int")
                if k > 1:
                    a, b = r.sample(range(k), 2)
                    s = r.choice([1, -1, 2, 0])
                    for j in range(k):
                        A["d"][a * k + j] = str(s * int(float(A["d"][b * k + j])))
            elif c == 1:  # symmetric, made definite by the diagonal
                A = symmetric(mat(r, k, k, r.choice(["int", "dec"])))
                add = r.choice([0, 5, 20, 60])
                for j in range(k):
                    A["d"][j * k + j] = f17(float(A["d"][j * k + j]) + add)
            elif c == 2:  # permuted triangular
                p = list(range(k))
                r.shuffle(p)
                d = ["0"] * (k * k)
                for a in range(k):
                    for b in range(a, k):
                        d[p[a] * k + b] = entry(r, "int")
                    if d[p[a] * k + a] == "0":
                        d[p[a] * k + a] = "2"
                A = {"r": k, "c": k, "d": d}
            elif c == 3:  # determinants near the tolerance
                A = {"r": k, "c": k, "d": ["0"] * (k * k)}
                for j in range(k):
                    A["d"][j * k + j] = "1"
                    for b in range(j):
                        A["d"][j * k + b] = entry(r, "int")
                A["d"][0] = f17(r.choice([1e-9, 0.9e-9, 1.1e-9, 1e-3, 0.9e-3, 1.1e-3, -1.1e-9, -0.9e-9, 2e-9]))
                square(A, r.choice(["1e-09", "0.001", "1e-05"]))
                continue
            square(A)
        ctx.note("square matrices", len(cmds))
        return chunks(cmds, 12)


# ------------------------------------------------------------------------------------------------ C13, C21 symbolic matrices
def sym(r, g, rows, cols, names, size=6, nums=False):
    es = []
    for _ in range(rows * cols):
        if nums or r.random() < 0.2:
            es.append(n(g.number("small")))
        else:
            es.append(g.smooth(r.randint(1, size), names))
    m = {"r": rows, "c": cols, "e": es}
    if (rows, cols) in ((2, 2), (2, 1)) and r.random() < 0.4:
        m["il"] = 1
    return m


def jacobian_sessions(ctx, g, k, bits=False):
    r = g.r
    cmds = []
    pools = [["x", "y", "z", "w", "x1", "q"], ["x", "x1", "x11", "xy", "y", "yx"], ["a", "A", "aa", "_a", "a_", "b"]]
    for i in range(k):
        pool = pools[0] if i % 2 else r.choice(pools)
        m = r.choice([1, 1, 2, 2, 3, 3, 4]) if r.random() < 0.93 else r.randint(5, 9)
        nm = r.sample(pool, r.randint(1, 4))
        es = []
        for _ in range(m):
            c = r.random()
            if bits and c < 0.35:
                es.append(g.tree(r.randint(2, 7), nm, ops=gen.ARITH + gen.BITS))
            elif c < 0.45:
                es.append(n(g.pos_number()))
            elif c < 0.5:
                es.append(r.choice([v(r.choice(nm)), ["neg", v(r.choice(nm))], ["*", n("3"), v(r.choice(nm))], ["+", v(r.choice(nm)), v(r.choice(nm))], es[-1] if es else v(nm[0])]))
            elif c < 0.6:  # linear
                e = n(g.number())
                for x in nm:
                    e = [r.choice("+-"), e, ["*", n(g.pos_number()), v(x)]]
                es.append(e)
            else:
                es.append(g.smooth(r.randint(2, 8), nm))
        order = r.sample(pool, r.randint(1, 5)) if i % 3 else r.sample(nm, len(nm))
        if i % 19 == 0:
            order = order + [order[0]]
        if i % 29 == 0:
            order = []
        pts = g.points(pool, ("pos", "small", "any", "zero"))
        setm = {"op": "sym", "f": "setvec", "d": "E", "m": {"r": m, "c": 1, "e": es}}
        if m in (2, 3) and r.random() < 0.3:
            setm["il"] = 1
        cs = [setm, {"op": "sym", "f": "jac", "a": "E", "d": "J", "vs": order, "pts": pts}]
        out = cs + [{"op": "sym", "f": "obs", "a": "J", "pts": pts}, {"op": "sym", "f": "obs", "a": "E", "pts": pts}]
        if i % 4 == 0:
            out += [{"op": "sym", "f": "jac", "a": "E", "d": "K", "vs": order, "pts": pts}, {"op": "sym", "f": "clone", "a": "J", "d": "L"}, {"op": "sym", "f": "eq", "a": "J", "b": "L"},
                    {"op": "sym", "f": "subs", "a": "J", "m": pts[0]}, {"op": "sym", "f": "obs", "a": "J", "pts": pts[1:2]}, {"op": "sym", "f": "obs", "a": "L", "pts": pts}]
        if bits:
            # a refusal leaves the old contents of J; make it a known matrix first
            out = [{"op": "sym", "f": "setvec", "d": "J", "m": {"r": 1, "c": 1, "e": [n("7")]}}, {"op": "sym", "f": "setvec", "d": "K", "m": {"r": 1, "c": 1, "e": [n("7")]}}] + out
        else:
            out = [{"op": "sym", "f": "setvec", "d": "J", "m": {"r": 1, "c": 1, "e": [n("7")]}}] + out
        cmds.append(out)
    return chunks(cmds, 6)


def S(f, **kw):
    return dict({"op": "sym", "f": f}, **kw)


def matrix_equality(ctx, g, k):
    """equal and nearly equal matrices of expressions: one entry changed, entries exchanged, the same entries in another shape"""
    from props import changes
    r = g.r
    cmds = []
    for i in range(k):
        R, C = r.choice([(1, 1), (1, 2), (2, 1), (2, 2), (2, 3), (3, 2), (1, 4), (4, 1), (1, 6), (6, 1), (3, 3), (5, 1)])
        small = lambda: g.tree(r.randint(1, 6), ["x", "y"], nums="edge" if i % 3 == 0 else "small", ops=gen.ARITH + gen.BITS if i % 4 == 0 else gen.ARITH)
        es = [small() for _ in range(R * C)]
        cs = [S("set", d="A", m={"r": R, "c": C, "e": es}), S("set", d="B", m={"r": R, "c": C, "e": es}), S("eq", a="A", b="B"), S("eq", a="A", b="A"), S("clone", a="A", d="K"), S("eq", a="K", b="B")]
        for q in {0, r.randrange(R * C), R * C - 1}:
            ch = changes(g, es[q])
            if ch:
                fs = list(es)
                fs[q] = ch[0]
                cs += [S("set", d="B", m={"r": R, "c": C, "e": fs}), S("eq", a="A", b="B"), S("eq", a="B", b="A"), S("put", a="B", i=q // C, j=q % C, e=es[q]), S("eq", a="A", b="B")]
        fs = list(es)
        r.shuffle(fs)
        cs += [S("set", d="B", m={"r": R, "c": C, "e": fs}), S("eq", a="A", b="B")]
        for (r2, c2) in {(C, R), (1, R * C), (R * C, 1)}:
            cs += [S("set", d="B", m={"r": r2, "c": c2, "e": es}), S("eq", a="A", b="B"), S("eq", a="B", b="A")]
        if R > 1:
            cs += [S("set", d="B", m={"r": R - 1, "c": C, "e": es[:(R - 1) * C]}), S("eq", a="A", b="B"), S("eq", a="B", b="A")]
        cs += [S("setvec", d="V", m={"r": R * C, "c": 1, "e": es}), S("eq", a="A", b="V"), S("eq", a="V", b="A"), S("onebyone", a="A", d="W"), S("eq", a="W", b="V")]
        cmds.append(cs)
    # numbers: equal when all entries agree within the tolerance
    for i in range(k // 2):
        R, C = r.randint(1, 4), r.randint(1, 4)
        A = mat(r, R, C, r.choice(["int", "dec", "small"]))
        e = 1e-9
        near = lambda: r.choice([0, e * 0.5, -e * 0.5, e * 1.5, -e * 1.5, 1e-3, -1, 2])
        cmds.append([{"op": "mat", "f": "eqmat", "A": A, "B": A}] + [{"op": "mat", "f": "eqmat", "A": A, "B": tweak(r, A, near())} for _ in range(4)] +
                    [{"op": "mat", "f": "eqnum", "A": {"r": R, "c": C, "d": [A["d"][0]] * (R * C)}, "x": A["d"][0]}, {"op": "mat", "f": "eqnum", "A": A, "x": A["d"][0]}])
    ctx.note("comparisons of matrices", k)
    return chunks(cmds, 8)


def matrix_names(ctx, g, pool, k):
    """the names in vectors and matrices, after changes and substitutions"""
    r = g.r
    cmds = []
    for i in range(k):
        R, C = r.choice([(1, 1), (1, 2), (2, 1), (2, 2), (2, 3), (3, 2), (4, 1), (6, 1), (3, 3)])
        wide = i % 4 == 0  # many names in few entries
        if wide:
            pool2 = pool + ["v%d" % j for j in range(20)]
        nm = r.sample(pool2, r.randint(8, 30)) if wide else r.sample(pool, r.randint(1, 5))
        es = [g.tree(r.randint(8, 24) if wide else r.randint(1, 6), nm, pvar=0.9 if wide else 0.7) for _ in range(R * C)]
        pts = [g.point(pool + nm, "pos")]
        obs = lambda a: S("obs", a=a, pts=pts)
        cs = [S("setvec" if C == 1 and r.random() < 0.7 else "set", d="A", m={"r": R, "c": C, "e": es}), obs("A"), S("clone", a="A", d="B")]
        q = r.randrange(R * C)
        cs += [S("put", a="B", i=q // C, j=q % C, e=g.tree(r.randint(1, 4), pool, pvar=0.8)), obs("B"), obs("A")]
        cs += [S(r.choice(["subs", "subst"]), a="B", m={x: "1.5" for x in r.sample(pool, r.randint(1, 5))}), obs("B"), obs("A"), S("onebyone", a="A", d="W"), obs("W")]
        if C == 1:
            cs += [S("setvec", d="J", m={"r": 1, "c": 1, "e": [n("7")]}), S("jac", a="A", d="J", vs=r.sample(pool, r.randint(1, 3)), pts=pts), obs("J"), obs("A")]
        cmds.append(cs)
    ctx.note("names of vectors and matrices", k)
    return chunks(cmds, 8)


def matrix_substitution(ctx, g, k):
    """substitution into a matrix agrees with substitution into its entries"""
    r = g.r
    cmds = []
    pool = ["x", "y", "z", "x1", "xy"]
    for i in range(k):
        R, C = r.choice([(1, 1), (1, 3), (2, 1), (2, 2), (2, 3), (3, 2), (4, 1)])
        es = [g.tree(r.randint(1, 7), pool, pvar=0.8, ops=gen.ARITH + gen.BITS if i % 5 == 0 else gen.ARITH) for _ in range(R * C)]
        m = {x: g.number("wild" if r.random() < 0.3 else "small") for x in r.sample(pool, r.randint(0, 4))}
        pts = g.points(pool, ("pos", "int", "zero"))
        cs = [S("set", d="A", m={"r": R, "c": C, "e": es}), S("clone", a="A", d="B"), S("subs", a="A", m=m), S("subst", a="B", m=m), S("obs", a="A", pts=pts), S("obs", a="B", pts=pts), S("eq", a="A", b="B")]
        for e in es[:2]:
            cs += [build_cmd(g, "e", e), {"op": "subs", "kind": r.choice(["num", "table"]), "a": "e", "ca": r.choice("cm"), "d": "f", "m": m}, {"op": "obs", "a": "f", "how": r.randint(0, 2), "pts": pts}]
        cmds.append(cs)
    ctx.note("substitutions into matrices", k)
    return chunks(cmds, 8)


@prop("C13")
class C13(Prop):
    def models(self, ctx):
        return [dict(module="MC_Deriv")] if not ctx.quick else []

    def sessions(self, ctx):
        g = ctx.G()
        k = ctx.q(450, 3000)
        ctx.note("Jacobians", k)
        out = jacobian_sessions(ctx, g, k)
        # linear forms: the entries are the coefficients, none may be misplaced
        cmds = []
        r = g.r
        for i in range(ctx.q(150, 800)):
            m, c = r.randint(1, 5), r.randint(1, 5)
            nm = r.sample(["a", "b", "c", "x", "y", "z"], c)
            es = []
            for a in range(m):
                e = n(str(a))
                for b in range(c):
                    t = ["*", n(str(10 * (a + 1) + b + 1)), v(nm[b])]
                    if r.random() < 0.8:
                        e = ["+", e, t] if r.random() < 0.5 else ["+", t, e]
                es.append(e)
            vs = r.sample(nm, c)
            pts = g.points(["a", "b", "c", "x", "y", "z"], ("any", "zero"))
            cmds.append([{"op": "sym", "f": "setvec", "d": "E", "m": {"r": m, "c": 1, "e": es}}, {"op": "sym", "f": "jac", "a": "E", "d": "J", "vs": vs, "pts": pts},
                         {"op": "sym", "f": "obs", "a": "J", "pts": pts}, {"op": "sym", "f": "obs", "a": "E", "pts": pts}])
        return out + chunks(cmds, 8)


@prop("C21")
class C21(Prop):
    def sessions(self, ctx):
        g = ctx.G()
        r = g.r
        cmds = []
        nm = ["x", "y", "z"]
        for i in range(ctx.q(330, 2200)):
            R, K, C = r.randint(1, 4), r.randint(1, 4), r.randint(1, 4)
            pts = g.points(nm, ("pos", "any", "zero"))
            obs = lambda a: S("obs", a=a, pts=pts)
            m = {x: f17(r.choice([2, 0.5, -1.25, 3, 1.5])) for x in r.sample(nm, r.randint(1, 3))}
            rest = {x: f17(round(r.uniform(0.3, 3), 3)) for x in nm}
            how = i % 8
            cs = [S("set", d="A", m=sym(r, g, R, K, nm, 4))]
            if how in (0, 1):
                B = sym(r, g, K if r.random() < 0.85 else K + 1, C, nm, 4)
                cs += [S("set", d="B", m=B), S("set", d="C", m=sym(r, g, 1, 1, nm, 1)), S("mul", a="A", b="B", d="C"), obs("C"), obs("A"), obs("B")]
                if how == 1:
                    cs += [S(r.choice(["subs", "subst"]), a="C", m=rest), S("calc", a="C"), S("tomat", a="C"), obs("C"), obs("A"), obs("B")]
            elif how == 2:
                cs += [S("set", d="B", m=sym(r, g, R, K, nm, 4)), S("sub", a="A", b="B", d="C"), obs("C"), obs("A"), obs("B"), S(r.choice(["subs", "subst"]), a="A", m=m), obs("C"), obs("A"), obs("B")]
            elif how == 3:
                cs += [S("clone", a="A", d="B"), S("eq", a="A", b="B"), S("put", a="B", i=r.randrange(R), j=r.randrange(K), e=g.smooth(3, nm)), S("eq", a="A", b="B"), obs("A"), obs("B"),
                       S(r.choice(["subs", "subst"]), a="B", m=m), obs("B"), obs("A"), S("eq", a="B", b="A"), S("clone", a="B", d="C"), S("eq", a="C", b="B")]
            elif how == 4:
                cs += [S("set", d="V", m=sym(r, g, 1, 1, nm, 1)), S("tovec", a="A", d="V"), obs("V"), S("onebyone", a="A", d="W"), obs("W"), obs("A"), S("tovec", a="W", d="V"), S("eq", a="V", b="W"),
                       S("vsub", a="W", b="V", d="U"), obs("U"), S("vsub", a="W", b="A" if K == 1 else "V", d="U"), obs("U")]
            elif how == 5:
                M = mat(r, R, K)
                cs += [S("frommat", d="B", m=M), obs("B"), S("tomat", a="B"), S("eq", a="A", b="B"), S("sub", a="A", b="B", d="C"), obs("C"), S("calc", a="B"), S("tomat", a="B"),
                       S("tomat", a="A"), S("calc", a="A"), obs("A")]
            elif how == 6:
                cs = [S("set", d="A", m=sym(r, g, R, K, r.choice([["x"], ["x"], nm]), 4)), S(r.choice(["subs", "subst"]), a="A", m=m), obs("A"), S("calc", a="A"), S("tomat", a="A"), obs("A"),
                      S(r.choice(["subs", "subst"]), a="A", m=rest), S("calc", a="A"), S("tomat", a="A"), obs("A"), S("str", a="A", pts=pts)]
            else:
                B = sym(r, g, K, C, nm, 3)
                D = sym(r, g, R, C, nm, 3)
                cs += [S("set", d="B", m=B), S("set", d="D", m=D), S("mul", a="A", b="B", d="C"), S("sub", a="C", b="D", d="C2"), obs("C2"), S("str", a="A", pts=pts), S("str", a="D", pts=pts),
                       S("subs", a="C2", m=rest), S("calc", a="C2"), S("tomat", a="C2"), obs("D"), obs("A"), obs("B"), obs("C")]
            cmds.append(cs)
        ctx.note("histories of symbolic matrices", len(cmds))
        return chunks(cmds, 6)


# ------------------------------------------------------------------------------------------------------ C27 tables
@prop("C27")
class C27(Prop):
    def models(self, ctx):
        return [dict(module="MC_VarsTab", env={"NAMES": "3"})]

    def sessions(self, ctx):
        g = ctx.G()
        r = g.r
        pool = ["x", "y", "z", "x1", "X", "_", "aLongerName", "b"]
        T = lambda f, **kw: dict({"op": "vt", "f": f}, **kw)
        val = lambda: entry(r, r.choice(["int", "dec", "wide"]))
        out = []
        for i in range(ctx.q(500, 3500)):
            eps = r.choice([None, None, "0.001", "1e-05"])
            e = float(eps or "1e-09")
            s = [reset(eps=eps) if eps else reset()]
            tabs = {}

            def make(d):
                k = r.randint(0, 3)
                ns = r.sample(pool, r.randint(0 if k != 3 else 1, 4))
                if k == 0:
                    s.append(T("vec", d=d, names=ns, x=val()))
                elif k == 1:
                    s.append(T("init", d=d, ps=[[x, val()] for x in ns]))
                else:
                    s.append(T("map", d=d, m={x: val() for x in ns}))
                # the order of names of the last two is the library's own; values are set only through a vec table
                tabs[d] = (ns, k == 0)
            for d in "abc":
                make(d)
            for _ in range(r.randint(4, 12)):
                k = r.randint(0, 9)
                a, b = r.choice("abc"), r.choice("abc")
                if k == 9:  # the same names in another order, the same or other values
                    ns = r.sample(pool, r.randint(1, 5))
                    vs = [val() for _ in ns]
                    o = list(range(len(ns)))
                    r.shuffle(o)
                    s += [T("vec", d="d", names=ns, x=val()), T("set", a="d", vs=vs), T("vec", d="e", names=[ns[j] for j in o], x=val()), T("eq", a="d", b="e"), T("set", a="e", vs=[vs[j] for j in o]),
                          T("eq", a="d", b="e"), T("eq", a="e", b="d"), T("set", a="e", vs=vs), T("eq", a="d", b="e"), T("obs", a="e"), T("map", d="f", m=dict(zip(ns, vs))), T("eq", a="f", b="d"), T("eq", a="d", b="f"),
                          T("copy", a="e", d="f"), T("eq", a="f", b="e"), T("obs", a="f"), T("assign", a="d", d="f"), T("set", a="f", vs=vs), T("eq", a="d", b="f"), T("obs", a="d")]
                elif k == 0:
                    make(a)
                elif k == 1 and a != b:
                    s.append(T(r.choice(["copy", "assign"]), a=a, d=b))
                    tabs[b] = tabs[a]
                elif k == 2:
                    s.append(T("set", a=a, vs=[val() for _ in tabs[a][0]]))
                elif k == 3:
                    s.append(T("get", a=a, n=r.choice(pool)))
                elif k == 4:
                    s.append(T("has", a=a, n=r.choice(pool + ["", "x2", "xx"])))
                elif k == 5:
                    s.append(T("eq", a=a, b=b))
                elif k == 6 and a != b:  # nearly equal tables
                    vs = [val() for _ in tabs[a][0]]
                    ws = [f17(float(t) + r.choice([0, 0, 0.4 * e, -0.4 * e, 0.99 * e, 1.01 * e, -1.01 * e, 3 * e])) if r.random() < 0.6 else t for t in vs]
                    s += [T("copy", a=a, d=b), T("set", a=a, vs=vs), T("set", a=b, vs=ws), T("eq", a=a, b=b), T("eq", a=b, b=a)]
                    tabs[b] = tabs[a]
                elif k == 7 and tabs[a][0]:
                    s.append(T("get", a=a, n=r.choice(tabs[a][0])))
                    s.append(T("has", a=a, n=r.choice(tabs[a][0])))
                else:  # the same pairs in another order, made in another way
                    ps = [[x, val()] for x in r.sample(pool, r.randint(0, 4))]
                    qs = list(ps)
                    r.shuffle(qs)
                    s += [T("init", d="d", ps=ps), T("map", d="e", m=dict((x, y) for x, y in qs)), T("eq", a="d", b="e"), T("init", d="f", ps=qs), T("eq", a="f", b="d"), T("eq", a="d", b=a)]
                    if ps:
                        qs[0] = [qs[0][0] + "1", qs[0][1]] if r.random() < 0.5 else [qs[0][0], val()]
                        s += [T("init", d="f", ps=qs), T("eq", a="f", b="d"), T("init", d="f", ps=qs[1:]), T("eq", a="d", b="f"), T("eq", a="f", b="d")]
            s += [T("obs", a=a) for a in "abc"]
            out.append(s)
        ctx.note("table histories", len(out))
        return out


# ------------------------------------------------------------------------------------------------ C17, C18 linear systems
def lin(rows, cols, d, b):
    return {"op": "linear", "A": {"r": rows, "c": cols, "d": [str(x) if not isinstance(x, str) else x for x in d]}, "b": [str(x) if not isinstance(x, str) else x for x in b]}


def depend(r, rows, cols, rank, lo=-4, hi=4, consistent=None):
    """an integer system of at most the given rank, with its rows mixed"""
    base = [[r.randint(lo, hi) if r.random() < 0.75 else 0 for _ in range(cols)] for _ in range(rank)]
    x = [r.randint(-3, 3) for _ in range(cols)]
    A, b = [], []
    for i in range(rows):
        if i < rank:
            row = list(base[i])
        else:
            c = [r.choice([0, 1, -1, 2]) for _ in range(rank)]
            row = [sum(c[k] * base[k][j] for k in range(rank)) for j in range(cols)]
        A.append(row)
        b.append(sum(p * q for p, q in zip(row, x)))
    if not consistent:
        b[r.randrange(rows)] += r.choice([1, -1, 2, 5])
    z = list(zip(A, b))
    r.shuffle(z)
    return [q for row, _ in z for q in row], [t for _, t in z]


def linear_cmds(ctx, r, k):
    out = []
    for i in range(k):
        c = i % 11
        m = r.choice([1, 2, 2, 3, 3, 4, 5])
        w = m if r.random() < 0.5 else m + r.choice([1, 1, 2, 3])
        if c in (0, 1):
            rk = r.randint(1, max(1, m - (r.random() < 0.7)))
            out.append(lin(m, w, *depend(r, m, w, min(rk, m), consistent=r.random() < 0.6)))
        elif c == 2:  # zero columns and zero pivots
            d, b = depend(r, m, w, m, consistent=True)
            for j in r.sample(range(w), r.randint(0, w)):
                for a in range(m):
                    if r.random() < 0.8:
                        d[a * w + j] = 0
            out.append(lin(m, w, d, b))
        elif c == 3:  # random real systems
            d = [entry(r, r.choice(["dec", "dec", "pos"])) for _ in range(m * w)]
            out.append(lin(m, w, d, [entry(r, "dec") for _ in range(m)]))
        elif c == 4:  # rows of very different size
            d = []
            for a in range(m):
                sc = 10.0 ** r.randint(-4, 6)
                d += [f17(round(r.uniform(-9, 9), 2) * sc) for _ in range(w)]
            out.append(lin(m, w, d, [entry(r, "dec") for _ in range(m)]))
        elif c == 5:  # more equations than unknowns
            w2 = r.randint(1, 3)
            m2 = w2 + r.randint(1, 3)
            out.append(lin(m2, w2, *depend(r, m2, w2, r.randint(1, w2), consistent=r.random() < 0.5)))
        elif c == 6:  # permuted diagonal
            p = r.sample(range(w), m)
            d = ["0"] * (m * w)
            for a in range(m):
                d[a * w + p[a]] = r.choice(["1", "2", "-3", "0.5", "0", "1e-3", "1e5", "-1e-6"])
            out.append(lin(m, w, d, [r.choice(["0", "1", "-2", "0.25"]) for _ in range(m)]))
        elif c == 7:  # permuted triangular
            p = list(range(m))
            r.shuffle(p)
            d = [0] * (m * w)
            for a in range(m):
                for b in range(a, w):
                    d[p[a] * w + b] = r.randint(-3, 3)
                if r.random() < 0.85:
                    d[p[a] * w + a] = r.choice([1, 2, -1, 5])
            out.append(lin(m, w, d, [r.randint(-5, 5) for _ in range(m)]))
        elif c in (9, 10):  # entries far below the tolerance, and unknowns so large that they matter
            tiny = [10.0 ** r.randint(-14, -8) for _ in range(w)]
            col = [r.random() < 0.5 for _ in range(w)]
            p = list(range(m))
            r.shuffle(p)
            d = [0.0] * (m * w)
            for a in range(m):
                for b in range(w):
                    z = float(r.randint(-9, 9)) if r.random() < 0.8 else 0.0
                    if col[b] and (c == 9 or r.random() < 0.6):
                        z *= tiny[b]
                    d[p[a] * w + b] = z
                if r.random() < 0.9:
                    d[p[a] * w + a] = float(r.choice([1, 2, -3, 10]))
            x = [(float(r.randint(-9, 9)) / (tiny[b] if col[b] and r.random() < 0.7 else 1)) for b in range(w)]
            out.append(lin(m, w, [f17(z) for z in d], [f17(float("%.12g" % sum(d[a * w + b] * x[b] for b in range(w)))) for a in range(m)]))
        else:  # the same rows again, b too or not
            d, b = depend(r, m, w, m, consistent=True)
            if m > 1:
                a, t = r.sample(range(m), 2)
                d[a * w:(a + 1) * w] = d[t * w:(t + 1) * w]
                b[a] = b[t] + r.choice([0, 0, 1])
            out.append(lin(m, w, d, b))
    return out


def small_systems(r, rows, cols, vals, bvals, k):
    import itertools
    total = len(vals) ** (rows * cols) * len(bvals) ** rows
    if total <= k:
        for d in itertools.product(vals, repeat=rows * cols):
            for b in itertools.product(bvals, repeat=rows):
                yield lin(rows, cols, d, b)
    else:
        for _ in range(k):
            yield lin(rows, cols, [r.choice(vals) for _ in range(rows * cols)], [r.choice(bvals) for _ in range(rows)])


def mc_linear(ctx):
    out = [dict(module="MC_Linear", env={"R": "2", "C": "2", "V": "-12"}), dict(module="MC_Linear", env={"R": "1", "C": "3", "V": "-12"})]
    if ctx.quick:
        return out + [dict(module="MC_Linear", env={"R": "3", "C": "3", "V": "01"})]
    return out + [dict(module="MC_Linear", env={"R": "2", "C": "3", "V": "-11"}), dict(module="MC_Linear", env={"R": "3", "C": "4", "V": "01"}),
                  dict(module="MC_Linear", env={"R": "3", "C": "3", "V": "-11"}), dict(module="MC_Linear", env={"R": "2", "C": "4", "V": "-11"})]


def with_settings(r, cmds, k):
    """groups of systems under each setting that matters"""
    out = []
    for i in range(0, len(cmds), k):
        out.append([reset(indet=r.random() < 0.5)] + cmds[i:i + k])
    return out


@prop("C17")
class C17(Prop):
    def models(self, ctx):
        return mc_linear(ctx)

    def sessions(self, ctx):
        g = ctx.G()
        r = g.r
        cmds = []
        if ctx.round == 0:
            for (R, C, vals, k) in ((1, 1, [-1, 0, 1, 2], 99), (2, 2, [-1, 0, 1, 2], ctx.q(2304, 99999)), (1, 3, [-1, 0, 2], 999), (2, 3, [-1, 0, 1], ctx.q(900, 6561)),
                                    (3, 3, [0, 1, -1], ctx.q(1500, 20000)), (3, 4, [0, 1, 2], ctx.q(500, 6000)), (2, 1, [0, 1], 99), (3, 2, [0, 1], 999), (4, 4, [0, 1], ctx.q(500, 6000)), (4, 4, [0, 0, 1, 2], ctx.q(200, 3000))):
                cmds += list(small_systems(r, R, C, vals, [0, 1, 2] if R < 3 else [0, 1], k))
            cmds.append(lin(0, 0, [], []))
        ctx.note("small systems", len(cmds))
        k = ctx.q(900, 6000)
        ctx.note("random systems", k)
        cmds += linear_cmds(ctx, r, k)
        return with_settings(r, cmds, 25)


@prop("C18")
class C18(Prop):
    def models(self, ctx):
        return mc_linear(ctx)[:2]

    def sessions(self, ctx):
        g = ctx.G()
        r = g.r
        cmds = linear_cmds(ctx, r, ctx.q(500, 3000))
        for i in range(ctx.q(1300, 8000)):
            m = r.choice([1, 2, 3, 4, 5, 6])
            w = m + r.choice([0, 0, 0, 1, 2])
            kind = r.choice(["int", "dec", "pos", "small", "wide"])
            d = [entry(r, kind) for _ in range(m * w)]
            for a in range(m):
                if r.random() < 0.5:
                    d[a * w + a] = f17(float(d[a * w + a]) + r.choice([10, 30, -20]))
                if r.random() < 0.2:
                    d[a * w + r.randrange(w)] = "0"
            rows = [d[a * w:(a + 1) * w] for a in range(m)]
            r.shuffle(rows)
            cmds.append(lin(m, w, [x for row in rows for x in row], [entry(r, r.choice(["int", "dec", kind])) for _ in range(m)]))
        ctx.note("systems", len(cmds))
        out = []
        for i in range(0, len(cmds), 25):
            out.append([reset(indet=r.random() < 0.7, eps=r.choice(["1e-09", "1e-12", "1e-09", "1e-06", "0.001"]))] + cmds[i:i + 25])
        return out
