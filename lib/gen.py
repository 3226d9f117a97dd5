"""Stimuli that Python draws (seeded): texts, expression trees, points, matrices. What they should do is decided by
the specification; nothing here knows the right answer."""
import math, random

ARITH = ["+", "-", "*", "/", "^"]
BITS = ["%", "&", "|"]
FUNS = ["sin", "cos", "tan", "asin", "acos", "atan", "sqrt", "log", "log2", "log10", "exp"]
EDGE = ["1e-13", "-1e-13", "3e-10", "1.0000000001", "0.9999999999999", "-1.0000001", "1e13", "-4e9", "2.0000000003", "0.4999999999", "1e-7", "-0.99999999", "1e-25", "6e20"]
SPELL = FUNS + ["arcsin", "arccos", "arctan"]


def enc(s):
    return list(s.encode("latin-1")) if isinstance(s, str) else list(s)


def reset(**kw):
    return {"op": "reset", "set": kw} if kw else {"op": "reset"}


def f17(d):
    return repr(float(d)) if math.isfinite(d) else ("nan" if d != d else "inf" if d > 0 else "-inf")


def n(x):
    return ["n", x if isinstance(x, str) else f17(x) if not float(x).is_integer() or abs(x) > 1e15 else str(int(x))]


def v(x):
    return ["v", x]


def vars_of(e, acc=None):
    acc = set() if acc is None else acc
    if e[0] == "v":
        acc.add(e[1])
    elif e[0] not in ("n", "np"):
        for c in e[1:]:
            vars_of(c, acc)
    return acc


class G:
    def __init__(self, seed, salt=""):
        self.r = random.Random("%s/%s" % (seed, salt))

    # ---- points
    def point(self, names, kind=None):
        r = self.r
        kind = kind or r.choice(["pos", "pos", "any", "small", "int"])
        out = {}
        for i, x in enumerate(names):
            if kind == "pos":
                d = round(r.uniform(0.3, 3.2), 3) + 0.0007 * (i + 1)
            elif kind == "small":
                d = round(r.uniform(0.05, 0.9), 3) + 0.0003 * (i + 1)
            elif kind == "edge":
                d = r.choice([-1, 1, 1]) * 10.0 ** r.uniform(-14, 14)
                out[x] = f17(float("%.9e" % d))
                continue
            elif kind == "zero":
                d = r.choice([0, 0, 1, -1, 2, -2, 0.5])
            elif kind == "int":
                d = r.choice([2, 3, 4, 5, 6, 7, 9, 11, 13]) + 16 * (i % 2)
            else:
                d = r.choice([-1, 1]) * (round(r.uniform(0.2, 4.0), 3) + 0.0011 * (i + 1))
            out[x] = f17(round(d, 6))
        return out

    def points(self, names, kinds=("pos", "any", "int")):
        return [self.point(names, k) for k in kinds]

    # ---- numbers
    def number(self, kind="small"):
        r = self.r
        if kind == "edge":
            kind = "small" if r.random() < 0.5 else r.choice(EDGE)
        if kind == "small":
            return r.choice(["0", "1", "2", "3", "4", "5", "0.5", "1.5", "2.5", "7", "10", "0.25", "-1", "-2", "-0.5"])
        if kind == "wild":
            return r.choice([f17(r.uniform(-10, 10)), f17(10 ** r.uniform(-8, 8)), f17(-10 ** r.uniform(-8, 8)),
                             str(r.randint(-1000, 1000)), f17(r.uniform(-1, 1) * 10.0 ** r.randint(-14, 14)), "0", "1", "-1"])
        return kind

    def pos_number(self):
        return self.r.choice(["1", "2", "3", "4", "5", "0.5", "1.5", "2.5", "7", "10", "0.25", "0.1", "12"])

    # ---- trees
    def tree(self, size, names, ops=None, funs=None, nums="small", pvar=0.6, signs=True):
        r = self.r
        ops = ARITH if ops is None else ops
        funs = FUNS if funs is None else funs
        if size <= 1:
            if names and r.random() < pvar:
                return v(r.choice(names))
            return n(self.number(nums))
        k = r.random()
        if (k < 0.3 or size == 2) and (funs or signs):
            c = r.random()
            f = r.choice(["neg", "pos", "neg"]) if signs and (c < 0.35 or not funs) else r.choice(funs) if funs else None
            if f:
                return [f, self.tree(size - 1, names, ops, funs, nums, pvar, signs)]
        a = r.randint(1, max(1, size - 2))
        op = r.choice(ops)
        return [op, self.tree(a, names, ops, funs, nums, pvar, signs), self.tree(max(1, size - 1 - a), names, ops, funs, nums, pvar, signs)]

    def smooth(self, size, names, nums=True):
        """a tree with moderate values and few undefined points"""
        r = self.r
        if size <= 1:
            if r.random() < 0.75 or not nums:
                return v(r.choice(names))
            return n(self.pos_number())
        k = r.random()
        if k < 0.35 or size == 2:
            f = r.choice(["sin", "cos", "atan", "exp", "neg", "sqrt", "log", "tan", "log2", "log10", "asin", "acos", "pos"])
            return [f, self.smooth(size - 1, names, nums)]
        a = r.randint(1, max(1, size - 2))
        b = max(1, size - 1 - a)
        op = r.choice(["+", "-", "*", "/", "+", "*", "^"])
        if op == "^":
            l = self.smooth(a, names, nums)
            if r.random() < 0.6:
                return ["^", l, n(r.choice(["2", "3", "0.5", "1.5", "-1", "-2", "4", "1", "0"]))]
            return ["^", l, self.smooth(min(b, 3), names, nums)]
        return [op, self.smooth(a, names, nums), self.smooth(b, names, nums)]

    # ---- text
    def space(self, p=0.15):
        r = self.r
        if r.random() > p:
            return ""
        return "".join(r.choice(" \t\n\r\v\f  ") for _ in range(r.randint(1, 3)))

    def name(self):
        r = self.r
        return r.choice(["x", "y", "z", "a1", "x_2", "_q", "E", "e", "e1", "X", "Ab", "sinx", "Sin", "x0x", "_", "__", "logx", "pi",
                         "asin_", "e2e", "exp1", "arcsinx", "v9_Z", "aVeryLongVariableName_0123456789", "inf_", "nana"])

    def literal(self):
        r = self.r
        k = r.randint(0, 11)
        if r.random() < 0.03:
            return r.choice(["5e-324", "4.9e-324", "2.4e-324", "2.5e-324", "1e-310", "2.2250738585072011e-308", "1.5e-400", "1e-99999", "0e-400", "0e99999", "0.0e400",
                             "0." + "0" * 330 + "7", "0." + "0" * 315 + "123", "1" + "0" * 60, "123e-330", "4e-99999999999", "0e99999999999999999999"])
        if k < 3:
            return str(r.randint(0, 20))
        if k == 3:
            return "%d.%d" % (r.randint(0, 99), r.randint(0, 9999))
        if k == 4:
            return ".%d" % r.randint(0, 999)
        if k == 5:
            return "%d." % r.randint(0, 99)
        if k == 6:
            return "%de%d" % (r.randint(0, 9), r.randint(0, 12))
        if k == 7:
            return "%d.%dE%s%d" % (r.randint(0, 9), r.randint(0, 99), r.choice("+-"), r.randint(0, 12))
        if k == 8:
            return "%s%d" % ("0" * r.randint(1, 4), r.randint(0, 99))
        if k == 9:
            return ".%de%s%02d" % (r.randint(1, 99), r.choice(["+", "-", ""]), r.randint(0, 9))
        if k == 10:
            return "%d.e-%d" % (r.randint(1, 99), r.randint(0, 9))
        return "".join(r.choice("0123456789") for _ in range(r.randint(10, 25))) + "." + "".join(
            r.choice("0123456789") for _ in range(r.randint(0, 25)))

    def text(self, depth, names=None, bits=True, p_space=0.12, lit=None):
        """a random well-formed text"""
        r = self.r
        sp = lambda: self.space(p_space)
        t = lambda d: self.text(d, names, bits, p_space, lit)
        if depth <= 0:
            if r.random() < 0.6:
                return sp() + (r.choice(names) if names else self.name()) + sp()
            return sp() + (r.choice(lit) if lit else self.literal()) + sp()
        k = r.random()
        if k < 0.58:
            op = r.choice(ARITH + ["^", "*", "-"] + (BITS if bits else []))
            return t(depth - 1 - (r.random() < 0.3)) + op + t(depth - 1 - (r.random() < 0.3))
        if k < 0.72:
            return sp() + "(" + t(depth - 1) + ")" + sp()
        if k < 0.84:
            return sp() + r.choice("+--") + t(depth - 1)
        f = r.choice(SPELL)
        if r.random() < 0.75:
            return sp() + f + sp() + "(" + t(depth - 1) + ")" + sp()
        return sp() + f + " " + t(depth - 1)

    def mutate(self, s):
        r = self.r
        s = list(s)
        for _ in range(r.choice([1, 1, 1, 2])):
            k = r.randint(0, 5)
            i = r.randint(0, len(s))
            if k == 0 and s:
                del s[min(i, len(s) - 1)]
            elif k == 1:
                s.insert(i, r.choice("()+-*/^%&|.$#@!~,;:[]{}=<>?'\"\\` \t0123eEx_\x80\xe9\x01"))
            elif k == 2 and s:
                s[min(i, len(s) - 1)] = r.choice("()+-*/^%&|.,$ 1ex")
            elif k == 3 and len(s) > 1:
                j = r.randint(0, len(s) - 1)
                i = min(i, len(s) - 1)
                s[i], s[j] = s[j], s[i]
            elif k == 4 and s:
                j = min(len(s), i + r.randint(1, 4))
                s[i:i] = s[i:j]
            elif k == 5 and s:
                j = min(len(s), i + r.randint(1, 5))
                del s[i:j]
        return "".join(s)


# ------------------------------------------------------------------------------------------- names
SCHEMES = [
    lambda k: ["a" * (i + 1) for i in range(k)],
    lambda k: ["z" + "_" * (k - i) for i in range(k)],
    lambda k: ["a_rather_long_common_prefix_of_names_%d" % (i + 1) for i in range(k)],
    lambda k: ["v" * 15 + chr(97 + i % 26) + "w" * (i // 26) for i in range(k)],
    lambda k: ["the_name_" * 14 + "abcdefghijklmnop"[i % 16] + str(i // 16) for i in range(k)],
    lambda k: [("q" * 16 + "%d" % i) if i % 2 else ("q" * 15 + "%d" % i) for i in range(k)],
    lambda k: [["X", "x", "xX", "Xx", "xx", "XX", "x_X", "X_x"][i] if i < 8 else "x_%d" % i for i in range(k)],
    lambda k: [["sinx", "expo", "log3", "sqrt_", "e1", "cos2", "asin_", "lo", "si", "tanh", "log100", "ex", "acosx", "pi"][i] if i < 14 else "fn%d" % i for i in range(k)],
    lambda k: [["Sin", "SIN", "Exp", "LOG", "Log2", "Sqrt", "COS", "Tan"][i] if i < 8 else "Fn%d" % i for i in range(k)],
    lambda k: ["x%d" % (2 * 10 ** i if i < 3 else i + 21) for i in range(k)],
    lambda k: ["_" * (i + 1) for i in range(k)],
    lambda k: ["_%d" % (10 ** (i % 6) + i // 6) for i in range(k)],
    lambda k: ["Zy"[i % 2] + "ba"[(i // 2) % 2] * (1 + i // 4) for i in range(k)],
    lambda k: ["e%d" % i if i % 2 else "E%d" % i for i in range(k)],
]


def respell(s, r):
    """the session with its variables renamed, one to one, to names that are easily confused"""
    if any(c["op"] in ("parse", "var", "long", "deep", "legal", "errinfo", "cfgget") for c in s):
        return s
    S = set()

    def expr(e, f):
        if isinstance(e, list):
            if len(e) == 2 and e[0] == "v" and isinstance(e[1], str):
                return f(e)
            return [expr(x, f) if isinstance(x, (list, dict)) else x for x in e]
        if isinstance(e, dict):
            return {k: expr(x, f) if isinstance(x, (list, dict)) else x for k, x in e.items()}
        return e

    def walk(c, nm):
        c = {k: x if k in ("vs", "bs", "names", "ps", "tab") else expr(x, lambda e: ["v", nm(e[1])]) for k, x in c.items()}
        vt = c["op"] == "vt"
        if "pts" in c:
            c["pts"] = [{nm(k): x for k, x in p.items()} for p in c["pts"]]
        if isinstance(c.get("v"), str):
            c["v"] = nm(c["v"])
        if "vs" in c and not vt:
            c["vs"] = [nm(x) for x in c["vs"]]
        if "names" in c:
            c["names"] = [nm(x) for x in c["names"]]
        if "ps" in c:
            c["ps"] = [[nm(x[0])] + x[1:] for x in c["ps"]]
        if vt and isinstance(c.get("n"), str):
            c["n"] = nm(c["n"])
        if isinstance(c.get("m"), dict) and (c["op"] == "subs" or c.get("f") in ("map", "subs", "subst")):
            c["m"] = {nm(k): x for k, x in c["m"].items()}
        if "tab" in c:
            t = c["tab"]
            c["tab"] = [[nm(x[0])] + x[1:] for x in t] if isinstance(t, list) else {nm(k): x for k, x in t.items()}
        return c

    for c in s:
        walk(c, lambda x: S.add(x) or x)
    old = sorted(S)
    if not old:
        return s
    new = list((r.choice(SCHEMES) if len(old) <= 50 else SCHEMES[2])(len(old)))
    assert len(set(new)) == len(new) and not set(new) & set(SPELL)
    if r.random() < 0.7:
        r.shuffle(new)
    to = dict(zip(old, new))
    return [walk(c, to.get) for c in s]
