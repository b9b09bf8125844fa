"""C21: sampled parameter values lie in the requested range and reach its ends.

The value each sampling routine stores is extracted as a closed-form expression of the range, the sample size and the index (or
the random number), per path; the ends are compared algebraically, and the values in between by the expression (or its logarithm)
being affine in the index. Where an identity fails, a small assignment violating it is given.
"""
import itertools, math, os, sys
try:
    import sympy as sp
except ImportError:
    if os.environ.get("SA_REEXEC"):
        raise
    os.environ["SA_REEXEC"] = "1"
    os.execvp("python3-vt", ["python3-vt", "-m", "sa.c21"] + sys.argv[1:])
from . import eff, ir
from .c06 import mentions, short
from .eff import show, I, Undecided
from .report import main

BASE = "Parameter"
THIS = ("this",)
INT = ("int", "const int", "long", "size_t", "unsigned long", "unsigned int", "const long", "long long", "unsigned", "const size_t", "std::size_t")
FLT = ("double", "const double", "float", "const float")


def kind(t):
    t = (t or "").replace("&", "").strip()
    return "int" if t in INT else "flt" if t in FLT else None


class Num(eff.Walk):
    """Keeps integer division and truncation apart from real arithmetic."""

    def conv(self, v, frm, to):
        if v is not None and kind(to) == "int" and kind(frm) == "flt" and v[0] not in ("int",):
            return ("trunc", v)
        return v

    def ev(self, e):
        v = super().ev(e)
        if e["k"] == "cast" and e.get("e") is not None:
            return self.conv(v, e["e"].get("t"), e.get("t"))
        return v

    def arith(self, op, x, y):
        r = super().arith(op, x, y)
        if r[0] == "/" and self.intdiv:
            return ("idiv",) + r[1:]
        return r

    intdiv = False

    def binary(self, e):
        old, self.intdiv = self.intdiv, False
        try:
            if e["op"] != "/":
                return super().binary(e)
            self.intdiv = False
            x, y = self.ev(e["x"]), self.ev(e["y"])
            self.intdiv = kind(e.get("t")) == "int"
            return self.arith("/", x, y)
        finally:
            self.intdiv = old

    def assign(self, e):
        if kind(e["x"].get("t")) == "int" and e["op"] in ("=", "*=", "+=", "-=", "/="):
            ky = kind(e["y"].get("t"))
            if e["op"] == "/=" and ky == "int":
                old, self.intdiv = self.intdiv, True
                try:
                    return super().assign(e)
                finally:
                    self.intdiv = old
            a = super().assign(e)
            if ky == "flt":
                v = self.read(a)
                self.store[a] = self.conv(v, "double", "int")
            return a
        return super().assign(e)

    def decl(self, v):
        super().decl(v)
        i = v.get("init")
        if i is not None and kind(v.get("t")) == "int" and kind(i.get("t")) == "flt":
            a = self.frames[-1].vars.get(v.get("id"))
            if a is not None and a in self.store:
                self.store[a] = self.conv(self.store[a], "double", "int")

    def retval(self, e):
        v = super().retval(e)
        return self.conv(v, e.get("t"), self.frames[-1].f.get("ret"))


def inline(g, e):
    return g["name"].split("::")[-1] not in ("UniformRandom", "string_format") and "InputParser" not in g["name"] and "YAML" not in g["name"]


class Cannot(Exception):
    pass


class Model:
    """Terms over the fields of a class and the parameters of a function, as sympy expressions and as numbers."""

    def __init__(self, prog, cls, f):
        self.types = {}
        c = [cls]
        while c:
            x = c.pop()
            r = prog.records.get(x) or {}
            for q in r.get("fields", []):
                self.types.setdefault(("fld", THIS, q["n"]), kind(q["t"]))
            c += [b if isinstance(b, str) else b.get("t", b.get("n")) for b in r.get("bases", [])]
        for q in f["params"]:
            self.types[("par", q["n"])] = kind(q["t"])
        self.sym = {}

    def leaf(self, t):
        if t not in self.sym:
            k = self.types.get(t)
            n = t[-1] if isinstance(t[-1], str) else "r%d" % len(self.sym)
            if t[0] == "call":
                self.sym[t] = sp.Symbol("u%d" % len(self.sym), nonnegative=True)
            elif k == "int":
                self.sym[t] = sp.Symbol(n, integer=True)
            elif k == "flt":
                self.sym[t] = sp.Symbol(n, positive=True)
            else:
                raise Cannot(show(t))
        return self.sym[t]

    def expr(self, t):
        o = t[0]
        if o == "int":
            return sp.Integer(t[1])
        if o == "flt":
            return sp.Rational(t[1].numerator, t[1].denominator)
        if o in ("fld", "par"):
            return self.leaf(t)
        if o in ("+", "-", "*", "/", "idiv"):
            x, y = self.expr(t[1]), self.expr(t[2])
            return x + y if o == "+" else x - y if o == "-" else x * y if o == "*" else x / y if o == "/" else self.floor(x, y)
        if o == "neg":
            return -self.expr(t[1])
        if o == "trunc":
            return sp.floor(self.expr(t[1]))
        if o == "call":
            n = short(t)
            if n == "UniformRandom":
                return self.leaf(t)
            a = [x for x in t[2:] if x is not None]
            fn = {"log": sp.log, "exp": sp.exp, "sqrt": sp.sqrt, "floor": sp.floor, "pow": sp.Pow, "log10": lambda x: sp.log(x, 10),
                  "round": lambda x: sp.floor(x + sp.Rational(1, 2)), "lround": lambda x: sp.floor(x + sp.Rational(1, 2)),
                  "max": sp.Max, "min": sp.Min, "fmax": sp.Max, "fmin": sp.Min}.get(n)
            if fn:
                return fn(*[self.expr(x) for x in a])
        raise Cannot(show(t))

    def floor(self, x, y):
        # exact when the divisor is a factor
        q = sp.cancel(x / y)
        return q if sp.denom(sp.together(q)) == 1 else sp.floor(x / y)

    def truth(self, t, env):
        """Value of a condition under numbers, None when it is not spelled out."""
        try:
            o = t[0]
            if o == "not":
                v = self.truth(t[1], env)
                return None if v is None else not v
            if o in ("&&", "||", "and", "or"):
                x, y = self.truth(t[1], env), self.truth(t[2], env)
                if o in ("&&", "and"):
                    return False if x is False or y is False else None if None in (x, y) else True
                return True if x is True or y is True else None if None in (x, y) else False
            if o in ("<", "==", "<=", ">", ">="):
                x, y = self.value(t[1], env), self.value(t[2], env)
                return {"<": x < y, "==": x == y, "<=": x <= y, ">": x > y, ">=": x >= y}[o]
            if o in ("fld", "par", "int"):
                return bool(self.value(t, env))
        except Cannot:
            pass
        return None

    def value(self, t, env):
        if t in env:
            return env[t]
        o = t[0]
        if o == "int":
            return t[1]
        if o == "flt":
            return float(t[1])
        if o in ("+", "-", "*", "/", "idiv"):
            x, y = self.value(t[1], env), self.value(t[2], env)
            if o in ("/", "idiv") and y == 0:
                raise Cannot("division by zero")
            return x + y if o == "+" else x - y if o == "-" else x * y if o == "*" else x / y if o == "/" else int(math.trunc(x / y))
        if o == "neg":
            return -self.value(t[1], env)
        if o == "trunc":
            return int(self.value(t[1], env))
        if o == "call":
            a = [self.value(x, env) for x in t[2:] if x is not None]
            fn = {"log": math.log, "exp": math.exp, "sqrt": math.sqrt, "floor": math.floor, "pow": math.pow, "round": lambda x: math.floor(x + .5),
                  "log10": math.log10, "max": max, "min": min, "fmax": max, "fmin": min, "lround": lambda x: math.floor(x + .5)}.get(short(t))
            if fn:
                try:
                    return fn(*a)
                except (ValueError, ZeroDivisionError, OverflowError, TypeError):
                    raise Cannot(show(t))
        raise Cannot(show(t))


def F(n):
    return ("fld", THIS, n)


def stored(p):
    """What a path stores as the option's value: [(event, term)]."""
    for e in p.events:
        if e.kind == "call" and e.short in ("SetOption", "SetOptionInDict") and len(e.args) >= 2:
            yield e, e.args[1]


def core(v):
    """The number a formatted name is made from."""
    while v[0] == "call" and short(v) == "string_format" and len(v) == 5:
        v = v[4]
    return v


def grid(M, leaves):
    lo, hi, n = F("minval"), F("maxval"), F("size")
    isint = M.types.get(lo) == "int"
    for a, d in itertools.product((2, 3, 7), (0, 1, 2, 3, 4, 5, 7, 10)):
        for s in (1, 2, 3, 4, 5, 6, 12):
            yield {lo: a if isint else float(a), hi: a + d if isint else float(a + d), n: s}


def same(x, y):
    return x == y or isinstance(x, float) or isinstance(y, float) and abs(x - y) <= 1e-9 * max(1, abs(x), abs(y))


def near(x, y):
    return abs(x - y) <= 1e-9 * max(1.0, abs(x), abs(y))


def zero(e):
    try:
        e = sp.powsimp(sp.expand_log(sp.simplify(e), force=True), force=True)
        return sp.simplify(e) == 0
    except Exception:
        return False


def sampling(prog, R, cls, f):
    try:
        ps = eff.walks(prog, f, THIS, cls, inline=inline, W=Num)
    except Undecided as ex:
        R.note("undecided: %s: %s" % (f["name"], ex))
        return
    M = Model(prog, cls, f)
    lo, hi, n = F("minval"), F("maxval"), F("size")
    rnd = "Random" in f["name"]
    idx = None if rnd else ("par", f["params"][0]["n"])

    def bad(what, msg, line=None):
        R.violation("%s:%s" % (f["name"], what), "%s:%s" % (f["file"], line or f["line"]), msg + " (%s)" % cls, f["name"])
    R.count("routines")
    for p in ps:
        R.count("paths")
        cs = list(p.walk.claims) + [t if v else ("not", t) for t, v in p.used]
        if p.abort:
            continue
        sets = list(stored(p))
        if not sets:
            bad("nothing", "no value is stored on a path")
            continue
        for e, v in sets:
            if e.args[0] != F("key") and e.args[0][0] in ("fld", "str", "par"):
                bad("key", "the value is stored under %s" % show(e.args[0]), e.line)
            v = core(v)
            R.count("obligations", 3)
            if rnd and v[0] == "call" and short(v) == "UniformRandom" and len(v) == 5:
                a, b = v[3], v[4]
                try:
                    ea, eb = M.expr(a), M.expr(b)
                except Cannot:
                    R.note("undecided: %s: %s" % (f["name"], show(v)))
                    continue
                if sp.simplify(ea - M.leaf(lo)) != 0 or sp.simplify(eb - M.leaf(hi)) != 0:
                    bad("range", "random values are drawn between %s and %s" % (show(a), show(b)), e.line)
                continue
            # reached with a proper sample only
            pts = list(points(M, cs, v, lo, hi, n, idx))
            if not pts:
                R.note("undecided: %s: %s" % (f["name"], show(v)))
                continue
            held = proved(M, v, cs, lo, hi, n, idx, rnd)
            R.count("values_by_identity" if held else "values_by_cases")
            if held:
                continue
            for env, val, first, last in pts:
                a, b = env[lo], env[hi]
                what = ", ".join("%s=%s" % (show(k), x) for k, x in sorted(env.items(), key=repr) if k[0] in ("fld", "par"))
                if not (a <= val or near(a, val)) or not (val <= b or near(val, b)):
                    bad("outside", "the value %s is outside the range for %s" % (val, what), e.line)
                elif first and not near(val, a):
                    bad("first", "the first value is %s for %s" % (val, what), e.line)
                elif last and not near(val, b):
                    bad("last", "the last value is %s for %s" % (val, what), e.line)
        if idx is not None:
            # an index outside the sample must not get here
            for env in grid(M, None):
                for k in (-1, env[n]):
                    env2 = dict(env)
                    env2[idx] = k
                    if all(M.truth(c, env2) is not False for c in cs) and any(M.truth(c, env2) is None and mentions(c, idx) for c in cs):
                        continue
                    if all(M.truth(c, env2) is not False for c in cs):
                        bad("index", "an index outside the sample is accepted (%d of %d)" % (k, env[n]))
            R.count("obligations")


def points(M, cs, v, lo, hi, n, idx):
    us = [x for x in tree(v) if x[0] == "call" and short(x) == "UniformRandom"]
    for env in grid(M, None):
        ks = range(env[n]) if idx is not None else (0.0, 0.5, 1.0)
        for k in ks:
            e2 = dict(env)
            if idx is not None:
                e2[idx] = k
            else:
                for u in us:
                    e2[u] = k
            if any(M.truth(c, e2) is False for c in cs):
                continue
            try:
                val = M.value(v, e2)
            except Cannot:
                continue
            yield e2, val, k == 0, (k == env[n] - 1 and env[n] > 1) if idx is not None else k == 1.0


def listing(prog, R):
    """Routines that name every value of a range: the file of each value from the least to the greatest."""
    for n, fs in sorted(prog.by_name.items()):
        cls = n.rsplit("::", 1)[0]
        if BASE not in bases(prog, cls):
            continue
        for f in fs:
            if not f.get("body") or not any(x["k"] in ("for", "while", "do") for x in ir.stmts(f["body"])):
                continue
            try:
                ps = eff.walks(prog, f, THIS, cls, inline=inline)
            except Undecided as ex:
                R.note("undecided: %s: %s" % (n, ex))
                continue
            for p in ps:
                for e in p.events:
                    if e.kind != "call" or e.short not in ("push_back", "emplace_back", "Append") or not e.args:
                        continue
                    for t in tree(e.args[0]):
                        if t[0] == "any" and t in p.walk.spans:
                            lo, hi = p.walk.spans[t]
                            ends = [subst(core(e.args[0]), t, x) for x in (lo, hi)]
                            R.count("obligations")
                            if not {F("minval"), F("maxval")} & set(tree(lo)) | {F("minval"), F("maxval")} & set(tree(hi)):
                                continue
                            M = Model(prog, cls, f)
                            try:
                                d = [sp.simplify(M.expr(x) - M.leaf(F(y))) for x, y in zip(ends, ("minval", "maxval"))]
                            except Cannot:
                                R.note("undecided: %s: %s to %s" % (n, show(lo), show(hi)))
                                continue
                            R.count("listings")
                            if d != [0, 0]:
                                R.violation("%s:listing" % n, "%s:%s" % (f["file"], e.line), "the values listed run from %s to %s" % (
                                    show(ends[0]), show(ends[1])), n)


def subst(t, a, b):
    if t == a:
        return b
    return tuple(subst(x, a, b) if isinstance(x, tuple) else x for x in t) if isinstance(t, tuple) else t


def tree(t):
    if isinstance(t, tuple):
        yield t
        for x in t:
            if isinstance(x, tuple):
                yield from tree(x)


def proved(M, v, cs, lo, hi, n, idx, rnd):
    """The expression is affine, or its logarithm is, from one end of the range to the other."""
    try:
        e = M.expr(v)
        a, b = M.leaf(lo), M.leaf(hi)
        if rnd:
            us = {x for x in tree(v) if x[0] == "call" and short(x) == "UniformRandom"}
            if len(us) != 1:
                return False
            x, end = M.leaf(us.pop()), sp.Integer(1)
        else:
            x, end = M.leaf(idx), M.leaf(n) - 1
            if all(k == 1 for k in range(1, 13) if all(M.truth(c, {n: k}) is not False for c in cs)):
                e = e.subs(M.leaf(n), 1)
                return zero(e.subs(x, 0) - a)          # one sample: only the first
        if not zero(e.subs(x, 0) - a) or not zero(e.subs(x, end) - b):
            return False
        if e.atoms(sp.floor):
            # rounding down an affine value between two whole ends
            fl = list(e.atoms(sp.floor))
            if len(fl) != 1 or sp.diff(e.subs(fl[0], sp.Symbol("F")), sp.Symbol("F")) != 1:
                return False
            return zero(sp.diff(fl[0].args[0], x, 2))
        return zero(sp.diff(e, x, 2)) or zero(sp.diff(sp.expand_log(sp.log(e), force=True), x, 2))
    except Cannot:
        return False


def randoms(prog, R):
    for f in prog.by_name.get("UniformRandom", []):
        if not f.get("body"):
            continue
        R.count("random_sources")
        for p in eff.walks(prog, f, None):
            r = p.ret
            if r is None or r[0] != "call" or "uniform" not in r[1]:
                continue
            args = None
            if r[2][0] == "obj":
                args = list(r[2][2:])
            elif r[2][0] == "glob":
                i = (prog.globals.get(r[2][1]) or {}).get("init")
                if i and i.get("k") == "ctor":
                    args = [("flt", eff.Fr(str(a["v"]))) if a["k"] == "float" else I(a["v"]) if a["k"] == "int" else ("?",) for a in i["a"]]
            want = [("par", q["n"]) for q in f["params"]] or [("flt", eff.Fr(0)), ("flt", eff.Fr(1))]
            R.count("obligations")
            if args is not None and len(args) == 2 and args != want and all(a[0] in ("par", "flt", "int", "+", "-") for a in args) and \
                    not all(a[0] in ("flt", "int") and a[1] == w[1] for a, w in zip(args, want)):
                R.violation("%s:bounds:%d" % (f["name"], len(want)), "%s:%s" % (f["file"], f["line"]),
                            "random numbers are drawn between %s and %s" % (show(args[0]), show(args[1])), f["name"])


def global_index(prog, R):
    """Index of a sample, to the indices of its parameters."""
    for n, fs in sorted(prog.by_name.items()):
        if not n.endswith("SampleGenerator::GetSampleIndex"):
            continue
        for f in fs:
            if not f.get("body") or kind(f["params"][0]["t"]) != "int":
                continue
            try:
                ps = eff.walks(prog, f, THIS, f.get("cls"), inline=inline)
            except Undecided as ex:
                R.note("undecided: %s: %s" % (n, ex))
                continue
            idx, tot = ("par", f["params"][0]["n"]), F("total_samples")
            M = Model(prog, f.get("cls"), f)
            R.count("routines")
            for p in ps:
                if p.abort:
                    continue
                R.count("obligations")
                cs = list(p.walk.claims) + [t if v else ("not", t) for t, v in p.used]
                for t in (1, 4):
                    for k in (-1, t):
                        env = {idx: k, tot: t}
                        if all(M.truth(c, env) is not False for c in cs):
                            R.violation("%s:index" % n, "%s:%s" % (f["file"], f["line"]), "a sample index outside the sample is accepted", n)


def run(prog, R):
    R.rule = __doc__.replace("\n", " ")
    for cls, r in sorted(prog.records.items()):
        if BASE not in bases(prog, cls):
            continue
        for name in ("SetParam", "SetRandomParam"):
            f = find(prog, cls, name)
            if f is not None:
                sampling(prog, R, cls, f)
    randoms(prog, R)
    listing(prog, R)
    global_index(prog, R)


def bases(prog, cls):
    from .problem import bases as b
    return b(prog, cls)


def find(prog, cls, name):
    for c in [cls] + bases(prog, cls):
        for f in prog.by_name.get("%s::%s" % (c, name), []):
            if f.get("body"):
                return f


if __name__ == "__main__":
    sys.exit(main("C21", run, {"functions_parsed": 100}))
