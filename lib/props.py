"""One entry per property: which models are checked, which stimuli are executed, on which builds."""
from concurrent.futures import ThreadPoolExecutor
import json, random, os, subprocess
import core, gen
from gen import G, enc, reset, v, n, f17

PROPS = {}


class Ctx:
    def __init__(self, pid, tier, seed, work, stats, exes):
        self.pid, self.tier, self.seed, self.work, self.stats, self.exes = pid, tier, seed, work, stats, exes
        self.round, self.notes = 0, {}

    @property
    def quick(self):
        return self.tier == "quick"

    def G(self, salt=""):
        return G("%s/%s/%s" % (self.seed, self.round, self.pid), salt)

    def note(self, what, k):
        self.notes[what] = self.notes.get(what, 0) + k

    def q(self, a, b):
        """quick or thorough amount"""
        return a if self.quick else b

    def tlc_lines(self, module, env=None, extra=(), cfg=None, tag=""):
        """what a generator module writes: JSON values, one per line"""
        out = os.path.join(self.work, "gen-%s%s.ndjson" % (module, tag))
        if os.path.exists(out):
            os.unlink(out)
        rc, txt, _ = core.tlc(module + ".tla", cfg or module + ".cfg", self.work, "gen-" + module + tag,
                              env=dict(env or {}, OUT=out), workers=1, extra=extra, heap="6g")
        if not os.path.exists(out):
            raise core.Broken("generator %s: rc %d\n%s" % (module, rc, txt[-3000:]))
        with open(out) as f:
            return [json.loads(x) for x in f if x.strip()]


def respelled(ctx, ss):
    r = ctx.G("names").r
    out = [gen.respell(s, r) if r.random() < 0.25 else s for s in ss]
    ctx.note("sessions with other names", sum(1 for a, b in zip(out, ss) if a is not b))
    return out


class Prop:
    editions = ["lib", "single"]
    repeat = True
    limit = 20
    stack = None  # bytes; the default of the system if None
    assumptions = ["numeric base operations come from a Java override with error bounds (java/Num754.java)",
                   "the driver (driver/driver.cpp) reports what the public interface did"]

    def __init__(self, pid):
        self.pid = pid

    def models(self, ctx):
        return []

    def sessions(self, ctx):
        return []

    def round(self, ctx):
        ss = respelled(ctx, self.sessions(ctx))
        bad = core.conform(ss, ctx.exes, ctx.work, ctx.stats, self.limit, self.editions, stack=self.stack)
        return ([{"property": self.pid, "edition": ed, "session": ss[i], "event": k, "why": why} for (ed, i, k, why) in bad],
                [ss[(7 * j + 1) % len(ss)][:4] for j in range(min(4, len(ss)))])

    def confirm(self, ctx, violations):
        """executes the sessions of some of the violations again, each up to its event"""
        todo, seen = [], {}
        for x in sorted(violations, key=lambda x: "hang" in x["why"][:12]):
            key = (x["edition"], x["why"][:60])
            if seen.get(key, 0) < (1 if "hang" in x["why"][:12] else 2) and len(todo) < 10:
                seen[key] = seen.get(key, 0) + 1
                todo.append(x)

        def again(i):
            x, tag = todo[i], "confirm%d" % i
            s = x["session"][: x["event"] + 1]
            evs = core.execute(ctx.exes[x["edition"]], [s], tag, ctx.work, self.limit, self.stack)
            bad = core.validate(evs, ctx.work, tag, core.Stats())
            return [dict(x, session=s, why=bad[0][2])] if bad else []

        with ThreadPoolExecutor(5) as ex:
            return [y for ys in ex.map(again, range(len(todo))) for y in ys]


def prop(pid):
    def deco(cls):
        PROPS[pid] = cls(pid)
        return cls
    return deco


def chunks(cmds, k, head=None):
    """groups lists of commands into sessions of k items with a reset in front; some under settings that should not matter"""
    out = []
    r = random.Random(len(cmds) * 31 + k)
    for i in range(0, len(cmds), k):
        odd = {x: y for x, y in (("log", r.choice([0, 3, 6])), ("eps", r.choice(["1e-06", "1e-12", "0.001"])), ("max", r.choice([0, 5, 1000])), ("method", 1), ("init", r.choice(["0", "-2.5"])), ("indet", True)) if r.random() < 0.4}
        s = [head or (reset(**odd) if r.random() < 0.15 else reset())]
        for c in cmds[i:i + k]:
            s += c if isinstance(c, list) else [c]
        out.append(s)
    return out


def words(t):
    """names a text might mention, for points"""
    import re
    return sorted(set(re.findall(r"[A-Za-z_][A-Za-z0-9_]*", t)) - set(gen.SPELL))



def gen_texts(ctx, *specs):
    """texts enumerated by spec/GenText.tla: specs are (alphabet, low, high)"""
    from concurrent.futures import ThreadPoolExecutor
    def one(sp):
        return ctx.tlc_lines("GenText", env={"ALPHABET": sp[0], "LOW": str(sp[1]), "L": str(sp[2])}, tag=sp[0])
    with ThreadPoolExecutor(4) as ex:
        out = []
        for sp, r in zip(specs, ex.map(one, specs)):
            ctx.note("texts from the specification, alphabet %s, %d..%d pieces" % sp, len(r))
            out += r
    return out


def gen_trees(ctx, leaves, funs, ops, low, size, has="", part=1):
    """expressions enumerated by spec/GenTree.tla; of part > 1 a different share each round"""
    out = ctx.tlc_lines("GenTree", env={"LEAVES": leaves, "FUNS": funs, "OPS": ops, "LOW": str(low), "SIZE": str(size), "HAS": has}, tag="-".join([leaves, funs, ops, str(size), has]))
    random.Random(1).shuffle(out)
    out = out[(ctx.seed + ctx.round) % part::part]
    ctx.note("all expressions of %d..%d nodes from the specification, leaves %s, functions %s, operators %s" % (low, size, leaves, funs, ops) + (", one in %d each round" % part if part > 1 else ""), len(out))
    return out


def parse_item(g, t, kinds=("pos", "any", "zero"), names=None, rt=False):
    """commands that parse a text and observe the result"""
    t = enc(t)
    names = words(bytes(t).decode("latin-1")) if names is None else names
    c = {"op": "parse", "d": "p", "t": t}
    if g.r.random() < 0.15 and 0 not in t:
        c["f"] = 1
    o = {"op": "obs", "a": "p", "how": g.r.randint(0, 2), "pts": g.points(names, kinds)}
    if rt:
        o["rt"] = 1
    return [c, o]


SY = dict(module="ShuntingYard", workers=8)


def shunting(ctx):
    return [dict(SY, env={"L": "5" if ctx.quick else "6"})]


# ------------------------------------------------------------------------------------------------ C01 the grammar
@prop("C01")
class C01(Prop):
    def models(self, ctx):
        return shunting(ctx)

    def sessions(self, ctx):
        g = ctx.G()
        cmds = []
        if ctx.round == 0:
            for x in gen_texts(ctx, ("chains", 0, 3), ("tokens", 1, ctx.q(4, 5)), ("spaced", 1, 4), ("chars", 1, 4)):
                if x["ok"]:
                    cmds.append(parse_item(g, x["t"], kinds=("pos", "int")))
        k = ctx.q(1500, 8000)
        for i in range(k):
            t = g.text(g.r.choice([1, 2, 2, 3, 3, 4, 5]), names=["x", "y", "z"] if i % 3 else None)
            cmds.append(parse_item(g, t))
        ctx.note("random texts", k)
        # the same meaning with more parentheses and blanks, long chains
        for i in range(ctx.q(60, 300)):
            ops = gen.ARITH + gen.BITS
            t = "x" + "".join(g.space() + g.r.choice(ops) + g.space() + g.r.choice(["x", "y", "2", "-3", "(y)", "sin x", "+z", "3", "log2(y)"])
                              for _ in range(g.r.randint(5, 12)))
            cmds.append(parse_item(g, t))
        for t in SPECIAL_TEXTS:
            cmds.append(parse_item(g, t))
        return chunks(cmds, 10)


SPECIAL_TEXTS = ["arcsin x", "arccos(x)", "arctan(x)", "asin(x)+acos(x)+atan(x)", "log2 8", "log10(x)", "log(x)", "exp x", "exp(-x)",
                 "sqrt sqrt x", "sin cos x", "sin -x", "-sin x", "--x", "-+-x", "x--x", "x-+x", "x^-2", "2^-x^2", "-x^2", "-2^2", "(-2)^2",
                 "x^y^z", "x/y/z", "x-y-z", "x%7%4", "17%x&y|z", "1e3", "1e-3x", "1E+3+x", "x+1e-3", "2e+x", "e-3", "1e", "E", "1.e2", ".5e1", "5.",
                 "x\ty", "x \n+\r y", "\vx\f", "( ( x ) )", "sin(x)^2", "sin x^2", "-sin x^2", "2*-x", "2^sin x", "sin x y", "x*(y+z)*2",
                 "((x))", "0x", "x0", "_", "__x", "a_1", "A", "sinx", "sin2", "sin_x", "sin(x)cos(y)", "log2x", "log22", "log 2", "exp1",
                 "x|y&z", "x&y|z", "x%y^2", "x^y%2", "-x%5", "x%-5", "x--y", "x+-+-+-y", "1+2*3^4%5&6|7", "7|6&5%4^3*2+1", "1.5.5", "1..", ".",
                 "..", "1e5.5", "1e+", "1e-", "1e+-2", "1ee2", "1e2e3", "1.2e3.4", "00012", "1e05", "1e-0", "x.y", "1_000", "_1", "1_"]


# ------------------------------------------------------------------------------------------------ C02 rejection
def bad_texts(g, k):
    out = []
    for i in range(k):
        t = g.mutate(g.text(g.r.choice([0, 1, 1, 2, 2, 3])))
        if i % 7 == 0:
            t = g.mutate(g.mutate(t))
        out.append(t)
    return out


SOUP = ["x", "y", "3", "1.5", "1e-3", "sin", "log10", "arctan", "(", ")", "(", ")", "+", "-", "*", "/", "^", "%", "&", "|", " ", "  ", "\t", "\n",
        "$", "1a", "#", "x.y", "\xe9", "..", "@", "9z", "~", ","]


def soup(g, k):
    return ["".join(g.r.choice(SOUP) for _ in range(g.r.randint(1, 9))) for _ in range(k)]


BLANKS = ["", " ", "\t", "\n", "   ", " \n\t ", "\r", "\v\f", "()", "(())", "( )", ")(", "(", ")", "((", "))", "+", "-", "--", "*", "x+", "+)", "(+", "sin", "sin()",
          "sin(", "sin)", "sin sin", "x x", "x 2", "2 x", "2x", "x(y)", "(x)(y)", "(x)y", "x sin y", "sin(x)sin(y)", "1 2 3", "x+y z", "a b c d",
          "x*/y", "x**y", "x^^y", "^x", "%", "/x", "x/", "x+*y", "(x", "x)", "((x)", "(x))", "x+(y*(z)", "x+y)*z)", "sin(x", "1..2", "1.2.3", "x$", "$x", "a.b",
          "1a+2", "2+1a", "sin 1a", "(1a", "1a)", "x # y", "x=y", "x,y", "x;", "x!", "\"x\"", "'", "{x}", "[x]", "x\\y", "\x00", "x\x00y", "\x80", "x\xff", "1e", "1e+",
          "1e-", "e+", "x +", "+ x +", "x & ", "| x", "x y + z w", "(x y)(z)", "x y)", "(x y", "-", "x-", "(-)", "-()", "(x+)", "(*x)", "x*()", "()x", "()+1", "1+()"]


@prop("C02")
class C02(Prop):
    def models(self, ctx):
        return shunting(ctx)

    def sessions(self, ctx):
        g = ctx.G()
        ts = []
        if ctx.round == 0:
            ts += [x["t"] for x in gen_texts(ctx, ("tokens", 0, ctx.q(4, 5)), ("spaced", 1, 4), ("chars", 0, ctx.q(4, 5)))]
        k = ctx.q(2500, 15000)
        ts += bad_texts(g, k) + soup(g, k) + BLANKS + SPECIAL_TEXTS
        if ctx.round == 0:  # every byte beside every kind of word
            beside = [[b] + a for b in range(256) for a in map(enc, ("2", "1.5", "1e3", ".5", "x", "_1", "sin x"))] + [a + [b] for b in range(256) for a in map(enc, ("2", "1.5", "1e3", "5.", "1e", "x", "_1", "sin", "x+7"))]
            beside += [enc(a + b) for a in ("2", "1.5", "0", "1e3") for b in ("ff", "fx", "LL", "ul", "e1f", "f+x", "e", "E1", "d", "i", "x1", "%", "f)", "_f")]
            ctx.note("bytes beside words", len(beside))
            ts += beside
        ctx.note("mutated and random texts", 2 * k)
        cmds = [[{"op": "parse", "d": "p", "t": enc(t)}] for t in ts]
        for c in cmds[::9]:
            if 0 not in c[0]["t"]:
                c[0]["f"] = 1
        return chunks(cmds, 25)


# -------------------------------------------------------------------------------------- C03, C04 printing, numbers
def wild_numbers(g, k):
    out = ["0", "-0.0", "1", "-1", "0.1", "0.5", "1e15", "1e16", "9999999999999998", "9007199254740991", "9007199254740992", "9007199254740993", "1e17", "1.5e16",
           "1e-15", "1e-16", "1.0000000000000002e-16", "9.9e-17", "1e-17", "1e-300", "1.7976931348623157e308", "2.2250738585072014e-308", "1e22", "1e23",
           "123456789012345678", "0.3", "0.30000000000000004", "2.5", "100", "1000000", "1200", "10.10", "1e100", "-1e-20", "-123.456", "3.141592653589793",
           "0.000001", "0.0000001", "1e-10", "123456.789", "99999999.99999999", "1e5", "4503599627370496.5", "-9007199254740992", "20", "1e1", "5e-16", "-5e-16", "2e-16",
           "4.9406564584124654e-324", "-4.9406564584124654e-324", "1e-310", "-2.5e-320", "2.2250738585072009e-308", "1e-322"]
    r = g.r
    for _ in range(k):
        c = r.randint(0, 7)
        if c == 0:
            d = r.uniform(-1, 1) * 10.0 ** r.randint(-20, 20)
        elif c == 1:
            d = float(r.randint(-2 ** 53, 2 ** 53))
        elif c == 2:
            d = r.randint(-10 ** 6, 10 ** 6) / 10.0 ** r.randint(0, 9)
        elif c == 3:
            d = float(r.randint(1, 99)) * 10.0 ** r.randint(-18, 18)
        elif c == 4:
            d = 2.0 ** r.randint(-60, 60) * r.choice([1, -1, 3])
        elif c == 5:
            d = r.uniform(-1, 1) * 10.0 ** r.randint(-300, 300)
        elif c == 6:
            d = float(10 ** r.randint(0, 20) + r.randint(-2, 2))
        else:
            d = r.uniform(-1000, 1000)
        out.append(f17(d))
    return out


def pair_trees():
    """every operator over every operator, both sides, with leaves and number leaves of both signs"""
    ops2 = gen.ARITH + gen.BITS
    ops1 = ["neg", "pos", "sin", "exp", "sqrt", "log2"]
    out = []
    x, y, z = v("x"), v("y"), v("z")
    for o in ops2:
        for p in ops2:
            out += [[o, [p, x, y], z], [o, x, [p, y, z]], [o, [p, x, n("2")], n("-3")], [o, n("-2"), [p, n("3"), y]], [o, [p, x, y], [p, y, z]]]
        for u in ops1:
            out += [[o, [u, x], y], [o, x, [u, y]], [u, [o, x, y]], [o, [u, n("-2")], y], [o, x, [u, n("-2")]], [u, [o, n("-3"), y]]]
        for a in ("-2", "0.5", "-1e-20", "1e20", "-1.5e-7", "-2.5e18", "0"):
            out += [[o, n(a), y], [o, x, n(a)], [o, [o, x, n(a)], y]]
    for u in ops1:
        for w in ops1:
            out += [[u, [w, x]], [u, [w, n("-2")]], [u, [w, [u, x]]]]
        out += [[u, n("-2")], [u, x], [u, n("0.25")]]
    return out


def triple_trees(g, k):
    ops2 = gen.ARITH + gen.BITS
    x, y, z, w = v("x"), v("y"), v("z"), v("w")
    r = g.r
    out = []
    for _ in range(k):
        a, b, c = (r.choice(ops2) for _ in range(3))
        lv = [r.choice([q, q, ["neg", q], n(r.choice(["2", "-2", "3", "0.5", "-7"]))]) for q in (x, y, z, w)]
        t = r.randint(0, 4)
        e = ([a, [b, [c, lv[0], lv[1]], lv[2]], lv[3]] if t == 0 else [a, lv[0], [b, lv[1], [c, lv[2], lv[3]]]] if t == 1
             else [a, [b, lv[0], lv[1]], [c, lv[2], lv[3]]] if t == 2 else [a, [b, lv[0], [c, lv[1], lv[2]]], lv[3]] if t == 3
             else [a, lv[0], [b, [c, lv[1], lv[2]], lv[3]]])
        if r.random() < 0.3:
            e = [r.choice(["neg", "pos", "sin"]), e]
        out.append(e)
    return out


def build_cmd(g, d, e):
    return {"op": "build", "d": d, "e": e, "st": g.r.choice([0, 0, g.r.randint(1, 10 ** 6)])}


def obs_cmd(g, a, names, kinds=("pos", "any", "zero"), rt=False, vpa=False):
    o = {"op": "obs", "a": a, "how": g.r.randint(0, 2), "pts": g.points(sorted(names), kinds)}
    if rt:
        o["rt"] = 1
    if vpa:
        o["vpa"] = 1
    return o


@prop("C03")
class C03(Prop):
    def models(self, ctx):
        return [dict(module="Printer", env={"SIZE": "5" if ctx.quick else "6"})]

    def sessions(self, ctx):
        g = ctx.G()
        trees = (pair_trees() if ctx.round == 0 else []) + triple_trees(g, ctx.q(500, 3000))
        trees += gen_trees(ctx, "two", "none", "all", 3, 5, part=3) + gen_trees(ctx, "one", "signs", "some", 2, 6, part=5)
        ops = gen.ARITH + gen.BITS
        k = ctx.q(700, 4000)
        for i in range(k):
            trees.append(g.tree(g.r.randint(2, 14), ["x", "y", "z", "_a1"], ops=ops if i % 2 else gen.ARITH,
                                nums="wild" if i % 3 == 0 else "small"))
        ctx.note("trees", len(trees))
        cmds = []
        for e in trees:
            cmds.append([build_cmd(g, "a", e), obs_cmd(g, "a", gen.vars_of(e), rt=True)])
        # results of the library's own operations
        for i in range(ctx.q(250, 1500)):
            e = g.smooth(g.r.randint(2, 9), ["x", "y"])
            pts = g.points(["x", "y"], ("pos", "small"))
            c = [build_cmd(g, "a", e)]
            j = i % 4
            if j == 0:
                c += [{"op": "diff", "a": "a", "ca": "c", "d": "b", "v": "x", "n": g.r.choice([1, 1, 2]), "pts": pts}]
            elif j == 1:
                c += [{"op": "clone", "a": "a", "d": "b"}, {"op": "simp", "a": "b", "pts": pts}]
            elif j == 2:
                c += [build_cmd(g, "r", g.tree(4, ["y"])), {"op": "subs", "a": "a", "ca": "c", "d": "b", "kind": "one", "v": "x", "b": "r"}]
            else:
                c += [{"op": "diff", "a": "a", "ca": "m", "d": "b", "v": "y", "n": 1, "pts": pts}, {"op": "simp", "a": "b", "pts": pts}]
            c += [{"op": "obs", "a": "b", "how": 0, "pts": pts, "rt": 1}]
            cmds.append(c)
        # the printed text of parsed text
        for i in range(ctx.q(400, 2000)):
            cmds.append(parse_item(g, g.text(g.r.choice([1, 2, 3, 4]), names=["x", "y", "z"]), rt=True))
        return chunks(cmds, 8)


@prop("C04")
class C04(Prop):
    def sessions(self, ctx):
        g = ctx.G()
        nums = wild_numbers(g, ctx.q(4000, 20000))
        ctx.note("numbers printed", len(nums))
        cmds = []
        for x in nums:
            cmds.append([{"op": "tostr", "x": x}])
        for x in nums[::6] + nums[:60]:
            cmds.append([{"op": "num", "d": "a", "x": x}, {"op": "obs", "a": "a", "pts": [{}], "vpa": 1, "rt": 1}])
            cmds.append([{"op": "build", "d": "a", "e": ["*", ["n", x], ["v", "x"]]}, {"op": "obs", "a": "a", "pts": [{"x": "1"}, {"x": "-3"}], "rt": 1}])
        k = ctx.q(1500, 8000)
        for i in range(k):
            t = g.literal()
            if i % 4 == 1:
                t = g.r.choice(["%s+x", "x*%s", "(%s)", "-%s", "x-%s", "%s-x", "sin(%s)", "%s^2", "2^%s", "%s%%3"]) % t
            cmds.append(parse_item(g, t, kinds=("pos",)))
        for _ in range(ctx.q(300, 2000)):
            d = float(f17(g.r.uniform(-1, 1) * 10.0 ** g.r.randint(-30, 30)))
            for t in ("%.17g" % abs(d), "%.25e" % abs(d), "%.3E" % abs(d), "%.30f" % abs(d)):
                cmds.append(parse_item(g, t, kinds=("pos",)))
        ctx.note("literals", k)
        return chunks(cmds, 20)


# ------------------------------------------------------------------------------------------------- C05 evaluation
GRID = ["0", "1", "-1", "2", "-2", "0.5", "-0.5", "3", "-3.7", "7.9", "10", "0.1", "100", "1e-8", "-1e-8", "1e8", "700", "-700", "1.5707963267948966", "3.141592653589793",
        "0.9999999999999999", "1.0000000000000002", "8", "1024", "1e15", "12345.678", "1e-300", "1e300", "710", "2147483647", "5"]


def function_grid():
    out = []
    for f in gen.FUNS + ["neg", "pos"]:
        for x in GRID:
            out.append([f, n(x)])
    for o in gen.ARITH + gen.BITS:
        for x in GRID[:17] + ["8", "2147483647", "1e300"]:
            for y in GRID[:13] + ["8", "-8", "1e-300", "60"]:
                out.append([o, n(x), n(y)])
    return out


@prop("C05")
class C05(Prop):
    def sessions(self, ctx):
        g = ctx.G()
        cmds = []
        trees = function_grid() if ctx.round == 0 else []
        ctx.note("function and operator grid", len(trees))
        trees = trees + gen_trees(ctx, "consts", "none", "all", 3, 5, part=8) + gen_trees(ctx, "consts", "all", "all", 2, 4, part=9)
        for e in trees:
            cmds.append([build_cmd(g, "a", e), {"op": "vpa", "a": "a"}])
        k = ctx.q(1200, 8000)
        for i in range(k):
            c = i % 6
            ops = gen.ARITH + gen.BITS if c == 1 else gen.ARITH
            e = (g.tree(g.r.randint(2, 12), [], ops=ops, nums="wild" if c == 2 else "small") if c < 4
                 else g.tree(g.r.randint(10, 40), [], ops=["+", "-", "*", "/"], funs=["sin", "cos", "atan"], nums="wild" if c == 4 else "small"))
            s = [build_cmd(g, "a", e), {"op": "clone", "a": "a", "d": "b"}, {"op": "vpa", "a": "a"}, {"op": "eq", "a": "a", "b": "b"}]
            if i % 2:
                s += [{"op": "calc", "a": "a"}, {"op": "obs", "a": "a", "pts": [{}], "vpa": 1}, {"op": "eq", "a": "a", "b": "b"}, {"op": "calc", "a": "a"}]
            cmds.append(s)
        for i in range(ctx.q(500, 3000)):
            e = g.smooth(g.r.randint(3, 20), ["x", "y"]) if i % 2 else g.tree(g.r.randint(3, 12), ["x", "y", "z"], ops=gen.ARITH + gen.BITS)
            cmds.append([build_cmd(g, "a", e), obs_cmd(g, "a", gen.vars_of(e))])
        ctx.note("random trees", k)
        return chunks(cmds, 15) + chunks(twice(ctx, g, ctx.q(120, 800)), 6)


# ------------------------------------------------------------------------------------- C06 invalid values, policy
INVALID = [["/", n("1"), n("0")], ["/", n("0"), n("0")], ["%", n("5"), n("0")], ["%", n("5"), n("0.7")], ["%", n("-3"), n("-0.2")], ["log", n("0")], ["log", n("-1")], ["log2", n("0")],
           ["log2", n("-2")], ["log10", n("0")], ["log10", n("-5")], ["sqrt", n("-1")], ["asin", n("1.5")], ["asin", n("-1.0001")], ["acos", n("2")],
           ["acos", n("-1.5")], ["exp", n("710")], ["exp", n("1e5")], ["^", n("10"), n("400")], ["^", n("0"), n("-1")], ["^", n("-2"), n("0.5")],
           ["^", n("-8"), n("-1.5")], ["*", n("1e200"), n("1e200")], ["+", n("1.7e308"), n("1.7e308")], ["-", n("-1.7e308"), n("1.7e308")], ["/", n("1e300"), n("1e-300")],
           ["/", n("-1"), n("0")], ["sqrt", n("-1e-300")], ["neg", ["/", n("1"), n("0")]], ["^", n("0"), n("-0.5")]]
BORDER = [["asin", n("1")], ["asin", n("-1")], ["acos", n("1")], ["acos", n("-1")], ["log", n("1e-300")], ["sqrt", n("0")], ["exp", n("709")], ["exp", n("-1000")],
          ["^", n("0"), n("0")], ["^", n("0"), n("2")], ["^", n("-2"), n("3")], ["^", n("-2"), n("-3")], ["^", n("10"), n("300")], ["*", n("1e150"), n("1e150")],
          ["/", n("0"), n("5")], ["%", n("0"), n("5")], ["%", n("5"), n("1")], ["%", n("-7"), n("3")], ["%", n("7"), n("-3")], ["&", n("0"), n("0")], ["|", n("0"), n("0")], ["tan", n("1.5707963267948966")],
          ["^", n("-1"), n("1e9")], ["sqrt", n("1e-300")], ["/", n("1e-300"), n("1e300")], ["atan", n("1e300")], ["sin", n("1e10")]]


@prop("C06")
class C06(Prop):
    def sessions(self, ctx):
        g = ctx.G()
        r = g.r
        cmds = {True: [], False: []}

        def item(e, throw, deep):
            s = [build_cmd(g, "a", e), {"op": "clone", "a": "a", "d": "b"}]
            s += [{"op": "calc", "a": "a"}] if deep else [{"op": "vpa", "a": "a"}, {"op": "eq", "a": "a", "b": "b"}, {"op": "calc", "a": "b"}]
            if deep:  # an error leaves it as it was; a number takes its place otherwise
                s += [{"op": "obs", "a": "a", "pts": [{}], "vpa": 1}, {"op": "vpa", "a": "b"}]
            return s
        base = function_grid() if ctx.round == 0 else []
        for th in (True, False):
            for e in base[::ctx.q(2, 1)] + INVALID + BORDER:
                cmds[th].append([build_cmd(g, "a", e), {"op": "vpa", "a": "a"}])
            for i in range(ctx.q(500, 3000)):
                inner = r.choice(INVALID + BORDER)
                outer = g.tree(r.randint(1, 7), ["h"], ops=gen.ARITH if i % 3 else gen.ARITH + gen.BITS, pvar=0.8)
                e = subst(outer, {"h": inner})
                cmds[th].append(item(e, th, i % 2 == 0))
            for i in range(ctx.q(500, 3000)):
                e = g.tree(r.randint(2, 10), [], ops=gen.ARITH + gen.BITS if i % 2 else gen.ARITH)
                cmds[th].append(item(e, th, i % 2 == 0))
            # unbound variables
            for i in range(ctx.q(300, 1500)):
                e = g.tree(r.randint(1, 10), ["x", "y"], ops=gen.ARITH + gen.BITS if i % 4 == 0 else gen.ARITH)
                nm = sorted(gen.vars_of(e))
                pts = [{}, g.point(nm[:1]), g.point(nm)]
                cmds[th].append([build_cmd(g, "a", e), {"op": "vpa", "a": "a"}, {"op": "calc", "a": "a"},
                                 {"op": "obs", "a": "a", "how": r.randint(0, 2), "pts": pts, "vpa": 1}])
            # absorbing neighbours do not hide an unbound variable or an invalid part
            for e in [["*", n("0"), v("x")], ["*", v("x"), n("0")], ["/", n("0"), v("x")], ["^", v("x"), n("0")], ["^", n("1"), v("x")], ["-", v("x"), v("x")],
                      ["*", n("0"), ["/", n("1"), n("0")]], ["*", ["log", n("0")], n("0")], ["^", ["/", n("0"), n("0")], n("0")], ["&", n("0"), v("x")], ["%", v("x"), n("1")],
                      ["/", n("1"), ["/", n("1"), n("0")]], ["exp", ["log", n("0")]], ["atan", ["/", n("1"), n("0")]], ["^", n("0.5"), ["exp", n("1e4")]]]:
                cmds[th].append([build_cmd(g, "a", e), {"op": "vpa", "a": "a"}, {"op": "calc", "a": "a"}, {"op": "obs", "a": "a", "pts": [{"x": "2"}, {}], "vpa": 1}])
        out = chunks(cmds[True], 15) + chunks(cmds[False], 15, reset(**{"throw": False}))
        # the policy can change at any time
        for i in range(ctx.q(40, 200)):
            s = [reset()]
            for j in range(8):
                s.append({"op": "cfg", "set": {"throw": r.random() < 0.5}})
                s.append(build_cmd(g, "a", r.choice(INVALID)))
                s.append({"op": "vpa", "a": "a"})
                if r.random() < 0.5:
                    s += [{"op": "calc", "a": "a"}, {"op": "cfgget"}, {"op": "vpa", "a": "a"}]
            out.append(s)
        ctx.note("policies", 2)
        return out


def subst(e, d):
    if e[0] == "v":
        return d.get(e[1], e)
    if e[0] in ("n", "np"):
        return e
    return [e[0]] + [subst(c, d) for c in e[1:]]


def twice(ctx, g, k):
    """the same question to an expression before and after it is changed in place, rebuilt or replaced"""
    r = g.r
    nm = ["x", "y", "z"]
    out = []
    for i in range(k):
        pts = g.points(nm, ("pos", "small"))
        e = g.smooth(r.randint(3, 9), nm) if i % 4 else g.tree(r.randint(2, 8), nm)
        probe = []
        for c in r.sample(range(7), 3):
            if c in (0, 1):
                probe += [{"op": "diff", "a": "a", "ca": "c", "d": "p%d" % c, "v": r.choice(nm), "n": 1, "pts": pts}, {"op": "obs", "a": "p%d" % c, "pts": pts}]
            elif c == 2:
                probe += [{"op": "subs", "kind": "one", "a": "a", "ca": "c", "d": "q", "v": r.choice(nm), "b": "r"}, {"op": "obs", "a": "q", "pts": pts}]
            elif c == 3:
                probe += [{"op": "subs", "kind": r.choice(["num", "table"]), "a": "a", "ca": "c", "d": "q", "m": pts[0]}, {"op": "vpa", "a": "q"}]
            elif c == 4:
                probe += [{"op": "obs", "a": "a", "how": r.randint(0, 2), "pts": pts, "rt": 1}]
            elif c == 5:
                probe += [{"op": "clone", "a": "a", "d": "c"}, {"op": "eq", "a": "a", "b": "c"}, {"op": "simp", "a": "c", "pts": pts}, {"op": "obs", "a": "c", "pts": pts}]
            else:
                probe += [{"op": "eq", "a": "a", "b": "k"}, {"op": "vpa", "a": "a"}]
        s = [build_cmd(g, "r", g.tree(r.randint(1, 4), nm, pvar=0.8)), build_cmd(g, "a", e), {"op": "clone", "a": "a", "d": "k"}] + probe
        for _ in range(r.randint(2, 3)):
            c = r.randint(0, 7)
            if c in (0, 1):
                s += [{"op": "subs", "kind": "one", "a": "a", "ca": "m", "d": "a", "v": r.choice(nm), "b": "r"}]
            elif c == 2:
                x = r.choice(nm)
                s += [{"op": "subs", "kind": r.choice(["num", "table"]), "a": "a", "ca": "m", "d": "a", "m": {x: g.number()}}]
            elif c == 3:
                s += [{"op": "cas", "f": r.choice(gen.ARITH), "a": "a", "b": "r", "cb": "c"}]
            elif c == 4:
                s += [{"op": "simp", "a": "a", "pts": pts}]
            elif c == 5:
                s += [{"op": "drop", "a": "a"}, build_cmd(g, "a", changes(g, e)[0] if changes(g, e) else e)]
            elif c == 6:
                s += [{"op": "swap", "a": "a", "b": "r"}]
            else:
                s += [{"op": "un", "f": r.choice(["neg", "sin", "atan"]), "a": "a", "ca": "m", "d": "a"}]
            s += probe
        out.append(s + [{"op": "obs", "a": "k", "pts": pts}])
    ctx.note("questions repeated after changes", k)
    return out


# ------------------------------------------------------------------------------------------------ C07 derivatives
def inner_terms():
    x, y = v("x"), v("y")
    return [x, ["*", n("0.7"), x], ["+", x, n("0.3")], ["*", x, y], ["^", x, n("2")], ["sin", x], ["/", x, y], ["/", y, x], ["-", n("0.4"), x], ["exp", x], ["neg", x], ["pos", x]]


def diff_rules():
    """every function over several inner terms, every operator over every placement of the variable"""
    x, y = v("x"), v("y")
    out = []
    for f in gen.FUNS + ["neg", "pos"]:
        for t in inner_terms():
            out += [[f, t]]
        out += [[f, y], [f, n("0.5")], ["*", [f, x], y], ["^", [f, x], n("2")], [f, [f, x]], ["/", n("1"), [f, x]]]
    args = [x, y, n("2"), n("0.5"), ["*", x, y], ["sin", x], ["+", x, n("1")], ["^", x, n("2")], ["neg", x], ["exp", y], n("3"), n("-1"), ["*", n("2"), n("3")], ["+", n("1"), y], n("0"), n("1")]
    for o in gen.ARITH:
        for a in args:
            for b in args:
                out.append([o, a, b])
    return out


def diff_item(g, e, var="x", order=1, kinds=("pos", "small", "zero"), simp=False, extra=()):
    nm = sorted(gen.vars_of(e) | {var})
    pts = g.points(nm, kinds)
    mv = g.r.random() < 0.3
    s = [build_cmd(g, "a", e), {"op": "diff", "a": "a", "ca": "m" if mv else "c", "d": "b", "v": var, "n": order, "pts": pts},
         {"op": "obs", "a": "b", "how": g.r.randint(0, 2), "pts": pts}]
    if not mv and g.r.random() < 0.3:
        s += [{"op": "obs", "a": "a", "how": 0, "pts": pts}]
    elif mv:
        s += [{"op": "obs", "a": "a"}]
    return s


@prop("C07")
class C07(Prop):
    def models(self, ctx):
        return [dict(module="MC_Deriv", env={"SIZE": "4" if ctx.quick else "5"})]

    def sessions(self, ctx):
        g = ctx.G()
        cmds = []
        if ctx.round == 0:
            rules = diff_rules()
            ctx.note("rule instances", len(rules))
            for e in rules:
                cmds.append(diff_item(g, e))
        for e in gen_trees(ctx, "core", "none", "arith", 3, 5, "x", part=5) + gen_trees(ctx, "core", "all", "arith", 2, 4, "x", part=5):
            cmds.append(diff_item(g, e, kinds=("pos", "any", "zero")))
        k = ctx.q(900, 8000)
        for i in range(k):
            names = ["x", "y", "z"] if i % 2 else ["x"]
            e = g.smooth(g.r.randint(2, 12), names) if i % 3 else g.tree(g.r.randint(2, 9), names)
            cmds.append(diff_item(g, e, var=g.r.choice(names + (["w"] if i % 5 == 0 else [])), kinds=("pos", "small", "any")))
        for i in range(ctx.q(150, 600)):  # other variables with awkward names, constants folded on the way
            e = subst(g.smooth(g.r.randint(2, 8), ["x", "y"]), {"x": v(g.r.choice(["x1", "_", "x_", "X"])), "y": v("x")})
            cmds.append(diff_item(g, e, var=g.r.choice(["x", "x1", "_", "X"])))
        ctx.note("random trees", k)
        return chunks(cmds, 10) + chunks(twice(ctx, g, ctx.q(100, 700)), 6)


@prop("C08")
class C08(Prop):
    def models(self, ctx):
        return [dict(module="MC_Deriv", env={"SIZE": "4" if ctx.quick else "5"})]

    def sessions(self, ctx):
        g = ctx.G()
        r = g.r
        cmds = []
        x, y = v("x"), v("y")
        base = [[f, t] for f in gen.FUNS for t in (x, ["*", x, y], ["+", x, y], ["^", x, n("2")])] + \
               [["^", x, n(k)] for k in ("2", "3", "5", "-1", "-2", "0.5", "1.5", "0", "1")] + \
               [["^", x, y], ["^", y, x], ["^", x, x], ["^", n("2"), x], ["/", x, y], ["/", y, x], ["*", ["^", x, n("3")], ["^", y, n("2")]],
                ["exp", ["*", x, y]], ["/", n("1"), ["+", x, y]], ["*", ["sin", x], ["cos", y]], ["*", x, ["*", x, x]], ["-", x, y], ["+", ["*", x, x], ["*", y, y]], y, x, n("7")]
        n_hi = 0
        for i in range(ctx.q(600, 4000)):
            e = r.choice(base) if i >= len(base) and i % 3 == 0 else base[i] if i < len(base) else g.smooth(r.randint(2, 7), ["x", "y"])
            nm = ["x", "y"]
            pts = g.points(nm, ("pos", "small", "zero"))
            c = r.randint(0, 4)
            s = [build_cmd(g, "a", e)]
            if c <= 1:  # one call with an order
                k = r.choice([1, 2, 2, 3, 4] if c else [0, 2, 3])
                k = k if k else 2
                if gen_size(e) > 6:
                    k = min(k, 2)
                s += [{"op": "diff", "a": "a", "ca": r.choice("cm"), "d": "b", "v": r.choice(nm), "n": k, "pts": pts},
                      {"op": "obs", "a": "b", "how": r.randint(0, 2), "pts": pts}]
            elif c == 2:  # repeated calls against one call
                s += [{"op": "diff", "a": "a", "ca": "c", "d": "b", "v": "x", "n": 1, "pts": pts}, {"op": "diff", "a": "b", "ca": r.choice("cm"), "d": "c", "v": "x", "n": 1, "pts": pts},
                      {"op": "obs", "a": "c", "how": 0, "pts": pts}, {"op": "diff", "a": "a", "ca": "m", "d": "d", "v": "x", "n": 2, "pts": pts}, {"op": "obs", "a": "d", "pts": pts}]
            else:  # mixed, in both orders
                s += [{"op": "diff", "a": "a", "ca": "c", "d": "b", "v": "x", "n": 1, "pts": pts}, {"op": "diff", "a": "b", "ca": r.choice("cm"), "d": "c", "v": "y", "n": 1, "pts": pts},
                      {"op": "obs", "a": "c", "pts": pts}, {"op": "diff", "a": "a", "ca": "c", "d": "d", "v": "y", "n": 1, "pts": pts},
                      {"op": "diff", "a": "d", "ca": "c", "d": "f", "v": "x", "n": 1, "pts": pts}, {"op": "obs", "a": "f", "pts": pts}]
                if c == 4:  # the result is an ordinary expression
                    s += [{"op": "simp", "a": "c", "pts": pts}, {"op": "obs", "a": "c", "pts": pts, "rt": 1}, {"op": "clone", "a": "c", "d": "h"},
                          {"op": "bin", "f": "*", "a": "h", "ca": "m", "b": "f", "cb": "c", "d": "k"}, {"op": "obs", "a": "k", "pts": pts},
                          {"op": "subs", "a": "f", "ca": "c", "d": "m", "kind": "num", "m": {"y": "1.25"}}, {"op": "obs", "a": "m", "pts": pts},
                          {"op": "un", "f": "atan", "a": "f", "ca": "m", "d": "q"}, {"op": "obs", "a": "q", "pts": pts}]
            n_hi += 1
            cmds.append(s)
        ctx.note("higher and mixed derivatives", n_hi)
        return chunks(cmds, 6)


def gen_size(e):
    return 1 if e[0] in ("v", "n", "np") else 1 + sum(gen_size(c) for c in e[1:])


def tlc_histories(ctx, module, depth, num=None, jobs=None):
    """command histories that TLC draws from spec/GenHist.tla (random) or spec/GenShort.tla (all)"""
    import re
    from concurrent.futures import ThreadPoolExecutor
    jobs = jobs or (core.JOBS if num else 1)

    def one(j):
        extra = ["-simulate", "num=%d" % -(-num // jobs), "-depth", str(depth + 2), "-seed", str(ctx.seed * 1000 + ctx.round * 50 + j)] if num else []
        rc, txt, _ = core.tlc(module + ".tla", module + ".cfg", ctx.work, "gen-%s-%d" % (module, j), env={"D": str(depth)}, workers=1, extra=extra)
        out = [json.loads(json.loads(x)[5:]) for x in re.findall(r'^"HIST .*"$', txt, re.M)]
        if rc != 0 or not out:
            raise core.Broken("generator %s: rc %d\n%s" % (module, rc, txt[-2000:]))
        return out
    with ThreadPoolExecutor(jobs) as ex:
        out = [h for hs in ex.map(one, range(jobs)) for h in hs]
    ctx.note("histories from the specification, %s, %d commands" % (module, depth), len(out))
    return out


# ------------------------------------------------------------- C09 refusal to differentiate, arguments left intact
def keep_item(g, e, cmds, names, pts=None):
    """e in slot a and a clone in k; after the commands, a is still equal to k"""
    pts = pts or g.points(sorted(names), ("pos", "small"))
    return ([build_cmd(g, "a", e), {"op": "clone", "a": "a", "d": "k"}] + cmds +
            [{"op": "eq", "a": "a", "b": "k"}, {"op": "obs", "a": "a", "how": g.r.randint(0, 2), "pts": pts, "rt": 1}])


@prop("C09")
class C09(Prop):
    def sessions(self, ctx):
        g = ctx.G()
        r = g.r
        cmds = []
        x, y = v("x"), v("y")
        # every operator that is refused, in every kind of position
        inner = []
        for b in gen.BITS:
            inner += [[b, x, n("3")], [b, n("7"), x], [b, x, y], [b, y, x], [b, ["+", x, y], n("5")], [b, n("4"), ["sin", x]], [b, y, n("3")], [b, n("9"), n("4")], [b, x, x], [b, x, n("0")],
                      [b, n("0"), x], [b, [b, x, n("5")], n("3")], [b, ["neg", x], n("2")]]
        wraps = [lambda t: t] + [(lambda f: lambda t: [f, t])(f) for f in gen.FUNS + ["neg", "pos"]] + \
                [(lambda o: lambda t: [o, t, x])(o) for o in gen.ARITH] + [(lambda o: lambda t: [o, x, t])(o) for o in gen.ARITH] + \
                [(lambda o: lambda t: [o, t, n("2")])(o) for o in gen.ARITH] + [(lambda o: lambda t: [o, n("2"), t])(o) for o in gen.ARITH] + \
                [(lambda o: lambda t: [o, ["sin", y], ["*", n("3"), t]])(o) for o in gen.ARITH] + [lambda t: ["*", n("0"), t], lambda t: ["+", x, ["*", t, n("0")]]]
        both = [(i, w) for i in inner for w in wraps]
        if ctx.quick:
            both = both[ctx.seed % 2::2]
        if ctx.round == 0:
            for t, w in both:
                e = w(t)
                pts = g.points(["x", "y"], ("int", "int"))
                var = r.choice(["x", "x", "y", "z"])
                order = r.choice([1, 1, 1, 2])
                if r.random() < 0.7:
                    cmds.append(keep_item(g, e, [{"op": "diff", "a": "a", "ca": "c", "d": "b", "v": var, "n": order, "pts": pts}, {"op": "obs", "a": "b", "pts": pts}], ["x", "y"], pts))
                else:
                    cmds.append([build_cmd(g, "a", e), {"op": "diff", "a": "a", "ca": "m", "d": "b", "v": var, "n": order, "pts": pts}, {"op": "obs", "a": "b", "pts": pts}])
            ctx.note("refused operators in context", len(both))
        # constant arguments of every operation, which may or may not raise
        for i in range(ctx.q(900, 5000)):
            bits = i % 4 == 0
            e = g.tree(r.randint(1, 9), ["x", "y", "z"], ops=gen.ARITH + gen.BITS if bits else gen.ARITH) if i % 2 else g.smooth(r.randint(2, 9), ["x", "y"])
            e2 = g.tree(r.randint(1, 5), ["x", "y", "z"])
            pts = g.points(["x", "y", "z"], ("pos", "small"))
            cs = [build_cmd(g, "q", e2), {"op": "clone", "a": "q", "d": "qk"}]
            for _ in range(r.randint(1, 3)):
                k = r.randint(0, 7)
                if k == 0:
                    cs += [{"op": "diff", "a": "a", "ca": "c", "d": "b", "v": r.choice("xyz"), "n": 1, "pts": pts}]
                elif k == 1:
                    cs += [{"op": "subs", "kind": "one", "a": "a", "ca": "c", "d": "b", "v": r.choice("xyz"), "b": "q"}]
                elif k == 2:
                    cs += [{"op": "subs", "kind": r.choice(["vec", "mapn"]), "a": "a", "ca": "c", "d": "b", "vs": ["x", "y"], "bs": ["q", r.choice("aq")]}]
                elif k == 3:
                    cs += [{"op": "bin", "f": r.choice(gen.ARITH), "a": "a", "ca": "c", "b": r.choice("aq"), "cb": "c", "d": "b"}]
                elif k == 4:
                    cs += [{"op": "bin", "f": r.choice(gen.ARITH), "a": "q", "ca": "c", "b": "a", "cb": "c", "d": "b"}]
                elif k == 5:
                    cs += [{"op": "un", "f": r.choice(gen.FUNS + ["neg", "pos"]), "a": "a", "ca": "c", "d": "b"}]
                elif k == 6:
                    cs += [{"op": "vpa", "a": "a"}, {"op": "str", "a": "a"}]
                else:
                    cs += [{"op": "clone", "a": "a", "d": "b"}, {"op": "cas", "f": r.choice(gen.ARITH), "a": "b", "b": "a", "cb": "c"}]
            cs += [{"op": "eq", "a": "q", "b": "qk"}, {"op": "obs", "a": "q", "pts": pts}]
            cmds.append(keep_item(g, e, cs, ["x", "y", "z"], pts))
        out = chunks(cmds, 8)
        return out + jacobian_sessions(ctx, g, ctx.q(60, 400), bits=True)


def jacobian_sessions(ctx, g, k, bits=False):
    import props2
    return props2.jacobian_sessions(ctx, g, k, bits)


# ---------------------------------------------------------------------------------------------- C10 simplification
def neutral_terms():
    x, y = v("x"), v("y")
    out = []
    for t in (x, ["+", x, y], ["sin", x], ["*", x, y], ["neg", x], ["^", x, n("2")], ["/", x, y]):
        for z in ("0", "-0.0", "1"):
            for o in gen.ARITH:
                out += [[o, t, n(z)], [o, n(z), t]]
        out += [["neg", ["neg", t]], ["pos", t], ["neg", ["pos", t]], ["-", n("0"), t], ["/", t, n("-1")], ["*", n("-1"), t], ["*", ["+", n("1"), n("-1")], t],
                ["+", t, ["-", n("2"), n("2")]], ["^", t, ["/", n("3"), n("3")]], ["*", t, ["cos", n("0")]], ["/", t, ["exp", n("0")]], ["+", t, ["log", n("1")]]]
    return out


def nearly_neutral():
    """operands that are close to neutral ones and are not"""
    x, y = v("x"), v("y")
    out = []
    for z in gen.EDGE + ["-1", "2", "-2", "1e-300", "1.0000000000000002", "0.9999999999999999", "5e-16", "-1e-9"]:
        for o in gen.ARITH:
            for t in (x, ["sin", x]):
                out += [[o, t, n(z)], [o, n(z), t]]
        out += [["*", ["+", x, n(z)], y], ["-", ["*", n(z), x], ["*", y, n(z)]], ["*", ["-", n("1"), n(z)], x], ["^", x, ["+", n("1"), n(z)]], ["*", n(z), ["*", n("1e12"), x]]]
    return out


@prop("C10")
class C10(Prop):
    def models(self, ctx):
        return [dict(module="MC_Simplify", env={"SIZE": str(ctx.q(4, 5)), "THROW": t}) for t in ("1", "0")]

    def sessions(self, ctx):
        g = ctx.G()
        r = g.r
        trees = []
        if ctx.round == 0:
            base = neutral_terms()
            trees += nearly_neutral() + base + [[o, a, b] for o in gen.ARITH for a in base[::37] for b in base[5::41]] + function_grid()[::ctx.q(3, 1)] + INVALID + BORDER
            ctx.note("neutral, absorbing and constant terms", len(trees))
        for i in range(ctx.q(1200, 8000)):
            k = i % 5
            if k == 0:
                e = g.smooth(r.randint(2, 14), ["x", "y"])
            elif k == 1:
                e = g.tree(r.randint(2, 12), ["x", "y", "z"], ops=gen.ARITH + gen.BITS, nums="edge" if i % 2 else "small")
            elif k == 2:
                e = g.tree(r.randint(2, 12), ["x", "y"], pvar=0.35, nums="edge" if i % 2 else "small")
            elif k == 3:
                e = g.tree(r.randint(2, 9), [], ops=gen.ARITH + gen.BITS if r.random() < 0.3 else gen.ARITH)
            else:  # constants of 0 and 1 that have to be computed first
                z = r.choice([["-", n("2"), n("2")], ["*", n("0"), n("5")], ["sin", n("0")], ["cos", n("0")], ["^", n("3"), n("0")], ["/", n("2"), n("2")], n("0"), n("1"), ["neg", n("0")],
                              ["+", n("0.5"), n("0.5")], ["-", n("1"), n("2")]])
                e = subst(g.tree(r.randint(2, 9), ["x", "y", "k"], pvar=0.9), {"k": z})
            trees.append(e)
        trees += gen_trees(ctx, "core", "none", "arith", 3, 5, "x", part=2) + gen_trees(ctx, "core", "all", "arith", 2, 4, "x", part=2) + gen_trees(ctx, "one", "signs", "some", 2, 6, "x", part=4)
        cmds = []
        for e in trees:
            nm = sorted(gen.vars_of(e))
            pts = g.points(nm, ("pos", "any", "zero", "zero", "edge"))
            cmds.append([build_cmd(g, "a", e), {"op": "simp", "a": "a", "pts": pts}, {"op": "obs", "a": "a", "how": r.randint(0, 2), "pts": pts},
                         {"op": "str", "a": "a", "normal": 1},
                         {"op": "clone", "a": "a", "d": "b"}, {"op": "simp", "a": "b", "pts": pts}, {"op": "eq", "a": "a", "b": "b"}])
        return chunks(cmds, 10)


# ------------------------------------------------------------------------------------------------ C11 substitution
@prop("C11")
class C11(Prop):
    def models(self, ctx):
        return [dict(module="MC_Subst", env={"SIZE": str(ctx.q(4, 5))})]

    def sessions(self, ctx):
        g = ctx.G()
        r = g.r
        cmds = []
        x, y, z = v("x"), v("y"), v("z")
        reps = [x, y, z, ["+", x, y], ["neg", y], ["*", x, z], n("2"), n("-3"), ["sin", x], ["^", y, n("2")], v("w"), v("x1"), ["/", z, x]]
        base = [x, ["+", x, y], ["*", x, x], ["-", y, x], ["/", ["+", x, y], ["-", x, z]], ["^", x, y], ["sin", ["*", x, y]], ["neg", x], ["+", x, v("x1")], ["-", v("x_"), x], n("4"),
                ["+", ["exp", x], ["log", ["+", y, n("9")]]], ["*", ["*", x, y], ["*", y, x]]]
        def item(e, pairs, kind, mv):
            s = [build_cmd(g, "a", e)]
            bs = []
            nums = kind in ("num", "table")
            for i, (vv, t) in enumerate(pairs):
                if not nums:
                    s.append(build_cmd(g, "r%d" % i, t))
                    bs.append("r%d" % i)
            c = {"op": "subs", "kind": kind, "a": "a", "ca": "m" if mv else "c", "d": "b"}
            if kind == "one":
                c.update(v=pairs[0][0], b=bs[0])
            elif nums:
                c["m"] = {p[0]: p[1] for p in pairs}
            else:
                c.update(vs=[p[0] for p in pairs], bs=bs)
            nm = sorted(set().union(gen.vars_of(e), *[gen.vars_of(p[1]) for p in pairs] if not nums else [set()]))
            pts = g.points(nm, ("pos", "int", "zero"))
            s += [c, {"op": "obs", "a": "b", "how": r.randint(0, 2), "pts": pts}]
            # replacements are unchanged and independent of the result
            for b in bs:
                s += [{"op": "obs", "a": b, "pts": pts}]
            if bs:
                s += [{"op": "cas", "f": r.choice("+*"), "a": "b", "b": bs[0], "cb": "c"}, {"op": "cas", "f": "-", "a": bs[0], "b": bs[-1], "cb": "c"},
                      {"op": "obs", "a": "b", "pts": pts}, {"op": "obs", "a": bs[0], "pts": pts}, {"op": "obs", "a": bs[-1], "pts": pts}]
            s += [{"op": "obs", "a": "a", "pts": pts}]
            return s
        if ctx.round == 0:
            for i, e in enumerate(base):
                for j, t in enumerate(reps):
                    for kind in ("one", "vec", "mapn"):
                        u = reps[(j * 5 + i + 3) % len(reps)]
                        pairs = [("x", t)] if kind == "one" else [("x", t), ("y", u)] if (i + j) % 2 else [("y", u), ("x", t), ("z", reps[(i + j) % len(reps)])]
                        cmds.append(item(e, pairs, kind, (i + j) % 3 == 0))
                for kind in ("num", "table"):
                    for p in ([("x", "2.5")], [("x", "1"), ("y", "0.25")], [("z", "3"), ("x", "-2"), ("y", "0.5")], [("x1", "7")], [("w", "1")]):
                        cmds.append(item(e, p, kind, r.random() < 0.3))
            ctx.note("substitutions of small terms", len(cmds))
        for i in range(ctx.q(700, 5000)):
            nm = ["x", "y", "z", "x1", "xy", "_x"]
            e = g.tree(r.randint(1, 12), nm[:r.randint(2, 6)], pvar=0.85, ops=gen.ARITH + gen.BITS if i % 5 == 0 else gen.ARITH)
            kind = r.choice(["one", "vec", "mapn", "num", "table"])
            k = 1 if kind == "one" else r.randint(1, 4)
            vs = r.sample(nm, k)
            if kind in ("num", "table"):
                pairs = [(a, g.number("wild" if r.random() < 0.3 else "small")) for a in vs]
            else:
                pairs = [(a, g.tree(r.randint(1, 5), nm, pvar=0.85)) for a in vs]
            cmds.append(item(e, pairs, kind, r.random() < 0.4))
        for e in gen_trees(ctx, "names", "some", "some", 1, 4, part=3):
            pairs = [(a, g.tree(r.randint(1, 3), ["x", "y", "x1"], pvar=0.9)) for a in r.sample(["x", "y", "x1"], r.randint(1, 3))]
            cmds.append(item(e, pairs[:1] if len(pairs) == 1 else pairs, "one" if len(pairs) == 1 else r.choice(["vec", "mapn"]), r.random() < 0.4))
        import props2
        return chunks(cmds, 6) + chunks(twice(ctx, g, ctx.q(80, 600)), 6) + props2.matrix_substitution(ctx, g, ctx.q(150, 1000))


# ------------------------------------------------------------------------------------------------ C12 variable names
@prop("C12")
class C12(Prop):
    def sessions(self, ctx):
        g = ctx.G()
        r = g.r
        cmds = []
        names = []
        if ctx.round == 0:
            for c in range(256):
                names += [[c], [c, 97], [97, c], [97, c, 98], [95, c], [49, c]]
            names += [[]]
            for t in ["sin", "cos", "x", "x1", "1x", "_", "__", "_1", "1", "9", "a b", " a", "a ", "a\n", "a-b", "a.b", "A", "Z", "z", "zZ9_", "0", "00", "x+y", "(x)", "a\x00b", "é", "ａ", "log10", "e",
                      "asin", "arcsin", "a" * 300, "a" * 300 + "-", "-", "--", "[", "`", "{", "@", "/", ":", "a[", "a`", "a{", "a@", "a/", "a:"]:
                names.append(list(t.encode("utf-8")))
        for _ in range(ctx.q(500, 5000)):
            names.append([r.choice([r.randint(0, 255), ord(r.choice("abzAZ059_")), ord(r.choice("abzAZ059_")), ord(r.choice("@[`{/:.-+ "))]) for _ in range(r.randint(1, 6))])
        for t in names:
            cmds.append([{"op": "legal", "t": t}, {"op": "var", "d": "a", "t": t}, {"op": "obs", "a": "a"}])
        ctx.note("names", len(names))
        # names of expressions, however they were made
        pool = ["x", "y", "z", "x1", "xx", "_", "X", "e", "E1", "a_b", "sinx", "y2k", "aVeryLongName", "z9"]
        for i in range(ctx.q(500, 3000)):
            nm = r.sample(pool, r.randint(1, 6))
            e = g.tree(r.randint(1, 16), nm, pvar=0.8, ops=gen.ARITH + gen.BITS)
            e2 = g.tree(r.randint(1, 6), nm, pvar=0.8)
            s = [build_cmd(g, "a", e), {"op": "obs", "a": "a"}, build_cmd(g, "b", e2),
                 {"op": "subs", "kind": r.choice(["one"]), "a": "a", "ca": r.choice("cm"), "d": "c", "v": nm[0], "b": "b"}, {"op": "obs", "a": "c"},
                 {"op": "cas", "f": r.choice(gen.ARITH), "a": "c", "b": "b", "cb": r.choice("cm")}, {"op": "obs", "a": "c"}, {"op": "obs", "a": "b"}, {"op": "obs", "a": "a"}]
            if i % 3 == 0:
                s += [{"op": "subs", "kind": "num", "a": "c", "ca": "c", "d": "f", "m": {nm[-1]: "1.5"}}, {"op": "obs", "a": "f"},
                      {"op": "diff", "a": "c", "ca": "c", "d": "h", "v": nm[-1], "n": 1, "pts": g.points(pool, ("pos",))}, {"op": "obs", "a": "h"}]
            cmds.append(s)
        for i in range(ctx.q(120, 800)):  # many names
            nm = r.sample(pool + ["v%d" % j for j in range(30)], r.randint(7, 40))
            e = g.tree(r.randint(20, 120), nm, pvar=0.95)
            cmds.append([build_cmd(g, "a", e), {"op": "obs", "a": "a"}])
        for i in range(ctx.q(400, 2000)):
            t = g.text(r.choice([1, 2, 3, 4, 5]), names=r.sample(pool, 4))
            cmds.append([{"op": "parse", "d": "p", "t": enc(t)}, {"op": "obs", "a": "p"}])
        import props2
        return chunks(cmds, 12) + chunks(twice(ctx, g, ctx.q(100, 600)), 6) + props2.matrix_names(ctx, g, pool, ctx.q(250, 1500))


# -------------------------------------------------------------------------------------------- C14 value semantics
@prop("C14")
class C14(Prop):
    def models(self, ctx):
        return [dict(module="NodeHeap", env={"D": "1" if ctx.quick else "2"}, workers=4)]

    def sessions(self, ctx):
        g = ctx.G()
        r = g.r
        out = []
        if ctx.round == 0:
            for h in tlc_histories(ctx, "GenShort", ctx.q(2, 3)):
                if len(h) > 4 and r.random() > 0.12:
                    continue
                s = [reset()] + h[:2]
                for c in h[2:]:
                    s.append(c)
                s += [{"op": "obs", "a": a, "pts": [{"x": "1.31", "y": "0.67"}]} for a in "ab"]
                out.append(s)
        for h in tlc_histories(ctx, "GenHist", 14, ctx.q(500, 2500)):
            s = [reset()]
            pt = g.point(["x", "y", "z"], "pos")
            for i, c in enumerate(h):
                if c["op"] in ("clone", "move"):
                    c = dict(c, how=r.randint(0, 2))
                s.append(dict(c, cfgafter=1) if r.random() < 0.1 else c)
                who = "abcd" if i % 3 == 2 or i == len(h) - 1 else [c.get("d", c["a"] if "a" in c else "a")] + [r.choice("abcd")]
                for a in who:
                    s.append({"op": "obs", "a": a, "how": r.randint(0, 2), "pts": [pt]})
            out.append(s)
        return out + chunks(twice(ctx, g, ctx.q(250, 2000)), 6)


# ------------------------------------------------------------------------------------------------------ C15 equality
def changes(g, e):
    """trees that differ from e in one place"""
    r = g.r
    out = []

    def sites(t, path=()):
        yield path, t
        if t[0] not in ("n", "v", "np"):
            for i, c in enumerate(t[1:], 1):
                yield from sites(c, path + (i,))

    def put(t, path, s):
        if not path:
            return s
        t = list(t)
        t[path[0]] = put(t[path[0]], path[1:], s)
        return t
    all_sites = list(sites(e))
    r.shuffle(all_sites)
    for path, t in all_sites[:4]:
        if t[0] == "v":
            s = r.choice([v(t[1] + "1"), v(t[1].swapcase()), n("1"), v("q")])
        elif t[0] == "n":
            x = float(t[1])
            import math
            s = r.choice([n(f17(math.nextafter(x, 1e308))), n(f17(-x)) if x else n("1"), n(f17(x + 1e-12 * (abs(x) + 1))), n(f17(x + 1)), v("x")])
        elif len(t) == 2:
            s = r.choice([[r.choice([f for f in gen.FUNS + ["neg", "pos"] if f != t[0]]), t[1]], t[1]])
        else:
            s = r.choice([[r.choice([o for o in gen.ARITH + gen.BITS if o != t[0]]), t[1], t[2]], [t[0], t[2], t[1]], t[1], t[2]])
        out.append(put(e, path, s))
    return out


@prop("C15")
class C15(Prop):
    def sessions(self, ctx):
        g = ctx.G()
        r = g.r
        cmds = []
        x, y = v("x"), v("y")
        if ctx.round == 0:
            small = [x, y, v("X"), v("xx"), v("x1"), n("0"), n("-0.0"), n("1"), n("2"), n("0.1"), n("0.30000000000000004"), n("0.3"), n("1e-10"), n("1.1e-10"), n("1.0000000000000002"), n("-1"), n("1e300"),
                     ["neg", x], ["neg", n("1")], ["pos", x], ["sin", x], ["cos", x], ["asin", x], ["+", x, y], ["+", y, x], ["-", x, y], ["*", x, y], ["/", x, y], ["^", x, y], ["%", x, y], ["&", x, y],
                     ["|", x, y], ["+", x, n("1")], ["+", x, n("2")], ["-", x, n("-1")], ["+", ["+", x, y], x], ["+", x, ["+", y, x]], ["*", n("2"), x], ["*", x, n("2")], ["neg", ["neg", x]], ["log", x],
                     ["log2", x], ["log10", x], ["exp", x], ["sqrt", x], ["tan", x], ["acos", x], ["atan", x]]
            s = [reset()]
            for i, e in enumerate(small):
                s.append(build_cmd(g, "s%d" % i, e))
                s.append(build_cmd(g, "t%d" % i, e))
            heads = s
            for i in range(len(small)):
                cmds.append(heads + [{"op": "eq", "a": "s%d" % i, "b": "t%d" % j} for j in range(len(small))])
            ctx.note("pairs of small trees", len(small) ** 2)
        out = cmds
        cmds = []
        for i in range(ctx.q(900, 6000)):
            e = g.tree(r.randint(1, 14), ["x", "y", "z"], ops=gen.ARITH + gen.BITS if i % 3 == 0 else gen.ARITH, nums="wild" if i % 2 else "small")
            s = [build_cmd(g, "a", e), build_cmd(g, "b", e), {"op": "clone", "a": "a", "d": "c"}, {"op": "eq", "a": "a", "b": "b"}, {"op": "eq", "a": "b", "b": "c"}, {"op": "eq", "a": "c", "b": "a"},
                 {"op": "eq", "a": "a", "b": "a"}]
            for t in changes(g, e):
                s += [build_cmd(g, "d", t), {"op": "eq", "a": "a", "b": "d"}, {"op": "eq", "a": "d", "b": "c"}]
            if i % 4 == 0:
                s += [{"op": "parse", "d": "p", "t": enc(g.text(3, names=["x", "y"]))}, {"op": "clone", "a": "p", "d": "q"}, {"op": "eq", "a": "p", "b": "q"}, {"op": "eq", "a": "p", "b": "a"}]
                s += [{"op": "diff", "a": "b", "ca": "c", "d": "h", "v": "x", "n": 1, "pts": g.points(["x", "y", "z"], ("pos",))}, {"op": "clone", "a": "h", "d": "i"}, {"op": "eq", "a": "h", "b": "i"}]
            cmds.append(s)
        said, cmds = [s for s in cmds if any(c["op"] == "parse" for c in s)], [s for s in cmds if all(c["op"] != "parse" for c in s)]
        # names that differ late, or little
        for names in gen.SCHEMES:
            nm = names(6)
            e = g.tree(r.randint(1, 6), ["x", "y"], ops=gen.ARITH)
            sp = lambda w: json.loads(json.dumps(e).replace('["v", "x"]', json.dumps(["v", w])))
            cmds.append([build_cmd(g, "s%d" % i, sp(w)) for i, w in enumerate(nm)] + [build_cmd(g, "t%d" % i, v(w)) for i, w in enumerate(nm)]
                        + [{"op": "eq", "a": z + str(i), "b": z + str(j)} for z in "st" for i in range(6) for j in range(6)])
        # all pairs of some of the smallest expressions of the specification
        es = gen_trees(ctx, "names", "some", "some", 1, 4, part=1)
        for _ in range(ctx.q(12, 80)):
            some = [r.choice(es) for _ in range(12)]
            some += [t for e in some[:4] for t in changes(g, e)[:2]]
            s = [build_cmd(g, "s%d" % i, e) for i, e in enumerate(some)]
            cmds.append(s + [{"op": "eq", "a": "s%d" % i, "b": "s%d" % j} for i in range(len(some)) for j in range(len(some))])
        import props2
        return out + chunks(said, 8) + chunks(cmds, 8) + props2.matrix_equality(ctx, g, ctx.q(250, 1500))
