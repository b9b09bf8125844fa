"""Interpretations of the terms of term.py: used to tell whether two normal forms that look different really are.

An interpretation gives every size a small value and every uninterpreted term (shape functions, coefficients, input
entries, ...) a value that depends on its arguments only.  Two terms that differ under one interpretation are
different functions of the routine's inputs; terms that only look different never differ.
"""
import hashlib, itertools, math
from fractions import Fraction
from . import term as T
from .term import Poly, Atom, P

SIZES = T.MINONE | {"posint"}


class Undetermined(Exception):
    pass


class Model:
    def __init__(self, seed, fixed=None, salt=None):
        self.seed = seed
        self.fixed = fixed or {}          # atom -> value
        self.salt = salt or (lambda a: "")  # extra seed for some atoms
        self.solve = {}                   # atom -> term it is decided to equal
        self.memo = {}
        self.ints = set()
        self.steps = 0

    def whole(self, a, v):
        if isinstance(v, float) and abs(v - round(v)) < 1e-9 and (a.op in SIZES or a in self.ints):
            v = int(round(v))
        if a.op in SIZES and not (isinstance(v, int) and 0 <= v <= 4):
            raise Undetermined("size")
        return v

    # -- uninterpreted terms
    def h(self, key):
        d = hashlib.blake2b(repr((self.seed, key)).encode(), digest_size=8).digest()
        return int.from_bytes(d, "big")

    def key(self, a, env):
        out = [a.op]
        for x in a.args:
            if isinstance(x, Atom):
                out.append(self.key(x, env) if x.op not in ("bv", "fv", "cv") else self.var(x, env))
            elif isinstance(x, Poly):
                v = self.poly(x, env)
                out.append(round(v, 9) if isinstance(v, float) else v)
            else:
                out.append(x)
        s = self.salt(a)
        if s:
            out.append(s)
        return tuple(out)

    def var(self, a, env):
        if a in env:
            return env[a]
        raise Undetermined("variable " + a.s)

    def atom(self, a, env):
        if a.op in ("bv", "fv", "cv"):
            return self.var(a, env)
        if a in self.fixed:
            return self.fixed[a]
        if not self.hasvars(a):
            v = self.memo.get(a)
            if v is None:
                s = self.solve.get(a)
                v = self.memo[a] = self.atom1(a, env) if s is None else self.whole(a, self.poly(s, env))
            return v
        return self.atom1(a, env)

    def hasvars(self, a):
        v = a._has.get("vars")
        if v is None:
            v = a._has["vars"] = any(x.op in ("bv", "fv") or x.op == "cv" and a.op not in T.CLOSING
                                         for x in T.allvars(P(a)))
        return v

    def atom1(self, a, env):
        op = a.op
        if op == "d":
            v = self.poly(a.args[0], env)
            return 1 if abs(v) < 1e-9 else 0
        if op == "ge":
            return 1 if self.poly(a.args[0], env) >= -1e-12 else 0
        if op == "sz":
            return self.poly(a.args[0], env)
        if op in ("max", "min"):
            x, y = self.closed(a.args[0], env), self.closed(a.args[1], env)
            return max(x, y) if op == "max" else min(x, y)
        if op == "rt":
            return math.sqrt(abs(self.closed(a.args[0], env)))
        if op == "inv":
            v = self.closed(a.args[0], env)
            if abs(v) < 1e-12:
                raise Undetermined("division by zero")
            return 1.0 / v
        if op == "fn":
            xs = [self.closed(x, env) for x in a.args[1:] if isinstance(x, Poly)]
            if a.args[0] == "abs":
                return abs(xs[0])
            if a.args[0] == "int":
                return int(xs[0])
            f = getattr(math, a.args[0], None) if a.args[0] in ("exp", "sin", "cos", "tanh", "floor", "ceil") else None
            if f:
                return f(xs[0])
            return 0.3 + (self.h(("fn", a.args[0], [round(x, 9) for x in xs])) % 997) / 500.0
        if op in ("mk", "mkb"):
            raise Undetermined("unresolved value")
        k = self.h(self.key(a, env))
        if op in SIZES:
            return 1 + k % 3
        if op in ("nonnull", "bool"):
            return k % 2
        if a in self.ints:
            return k % 3
        if op == "fld" and a.args[1] in ("Elem2No", "Elem1No"):
            return k % 3 - 1
        v = 0.25 + (k % 9973) / 5000.0
        if op not in ("wt", "Weight", "posreal") and (k >> 20) & 1:
            v = -v
        return v

    def closed(self, p, env):
        """A closed argument: its own summation variables are opened."""
        return self.poly(T.open_poly(p), env)

    def bound(self, p, env):
        v = self.poly(p, env)
        if isinstance(v, float):
            if abs(v - round(v)) > 1e-9:
                raise Undetermined("size")
            v = int(round(v))
        return v

    def poly(self, p, env):
        r = 0
        for mo, c in p.m.items():
            r += self.mono(mo, env) * (c if isinstance(c, int) else float(c))
        return r

    def mono(self, mo, env):
        bs = set()
        for a, e in mo:
            bs |= a.bvs
        bs = sorted((b for b in bs if b not in env), key=lambda b: b.uid)
        return self.sum(list(mo), bs, env)

    def sum(self, facs, bs, env):
        # factors without a pending variable first
        v = 1
        rest = []
        pend = set(bs)
        for a, e in facs:
            if pend and a.bvs & pend:
                rest.append((a, e))
            else:
                x = self.atom(a, env)
                if e < 0:
                    if abs(x) < 1e-12:
                        raise Undetermined("division by zero")
                    x = 1.0 / x ** (-e)
                elif e > 1:
                    x = x ** e
                v = v * x
                if v == 0:
                    return 0
        if not bs:
            return v
        self.steps += 1
        if self.steps > 400000:
            raise Undetermined("too large")
        # the variable whose range is known and that completes most factors
        b = None
        for x in bs:
            if not (x.args[1].bvs & pend):
                n = min(len(a.bvs & pend) for a, e in rest if x in a.bvs) if any(x in a.bvs for a, e in rest) else 9
                if b is None or n < b[0]:
                    b = (n, x)
        if b is None:
            raise Undetermined("cyclic ranges")
        b = b[1]
        others = [x for x in bs if x is not b]
        tot = 0
        env2 = dict(env)
        for i in range(self.bound(b.args[1], env)):
            env2[b] = i
            tot += self.sum(rest, others, env2)
        return v * tot


def int_atoms(polys):
    """Atoms that occur in ranges and sizes: integers."""
    out = set()

    def rng(p):
        for mo in p.m:
            for a, e in mo:
                if a.op not in ("bv", "fv", "cv"):
                    out.add(a)
    for p in polys:
        for a in T.atoms_in(p):
            if a.op in ("bv", "fv", "cv"):
                rng(a.args[1])
            elif a.op == "sz":
                rng(a.args[0])
    return out


def consistent(m, cond):
    """Does the interpretation satisfy the decisions of this configuration?"""
    for k, v in cond:
        try:
            x = m.atom1(k, {}) if k not in m.fixed else m.fixed[k]
        except Undetermined:
            continue
        if bool(x) != v:
            return False
    return True


def equalities(cond):
    """Decisions 'p is zero' solved for one term of p each: {term: what it equals}."""
    out = {}
    for k, v in cond:
        if k.op != "d" or not v:
            continue
        p = k.args[0]
        best = None
        for mo, c in p.m.items():
            if len(mo) != 1 or mo[0][1] != 1:
                continue
            a = mo[0][0]
            rest = p - Poly({mo: c})
            if a in out or a.op in ("bv", "fv", "cv", "d", "ge", "sz", "max", "min", "rt", "inv", "fn") or \
                    a in T.atoms_in(rest) or any(x in out or T.atoms_in(P(x)) & {a} for x in T.atoms_in(rest)) or \
                    any(a in T.atoms_in(q) for q in out.values()) or a.op in SIZES and c not in (1, -1):
                continue
            rank = (a.op in SIZES, a.op != "fld", str(a))
            if best is None or rank < best[0]:
                best = (rank, a, rest * P(Fraction(-1) / c))
        if best:
            out[best[1]] = best[2]
    return out


def models(cond, polys, n=6, tries=4000, salt=None):
    """Up to n interpretations that satisfy the decisions cond [(atom, bool)]."""
    out = []
    ints = int_atoms(polys)
    fixed = {}
    for k, v in cond:
        if k.op in ("nonnull", "bool"):
            fixed[k] = 1 if v else 0
    eqs = equalities(cond)
    for seed in range(tries):
        m = Model(seed, fixed, salt)
        m.solve = eqs
        m.ints = ints
        if consistent(m, cond):
            out.append(m)
            if len(out) >= n:
                break
    return out


def assign(vs, m):
    """All values (up to a few) of free index variables."""
    rs = []
    for v in vs:
        try:
            rs.append(range(m.bound(v.args[1], {})))
        except Undetermined:
            return []
    out = list(itertools.islice(itertools.product(*rs), 400))
    step = max(1, len(out) // 12)
    return [dict(zip(vs, x)) for x in out[::step]]


def differ(p, q, vs, cond, n=4):
    """An interpretation under which p and q differ, None if none was found among those tried, or "?" when
    no interpretation of the configuration could be built."""
    d = p - q
    ms = models(cond, [d], n)
    seen = 0
    for m in ms:
        for env in assign(vs, m):
            m.steps = 0
            try:
                x, y = m.poly(p, env), m.poly(q, env)
            except Undetermined:
                continue
            seen += 1
            if abs(x - y) > 1e-6 * (1 + abs(x) + abs(y)):
                return m, env, x, y
    return None if seen else "?"
