"""Value domain of the abstract interpreter: polynomials over hash-consed terms, in index notation.

A value is a Poly: a map from monomials to rational coefficients.  A monomial is a product of powers of
atoms.  Atoms are uninterpreted terms op(args...) whose arguments are polynomials (index or scalar
expressions), other atoms (objects) or strings.  Index variables come in three kinds:
  bv  bound: a monomial containing one is implicitly summed over its range 0 <= bv < hi,
  fv  free: the variable of a loop being analysed, or of the position being looked at,
  cv  closed: a summation variable inside the argument of an atom (for instance of a square root).
The special atoms are  d(P)  (1 when P = 0, else 0),  ge(P)  (1 when P >= 0, else 0) and  rt(P)
(square root of P).  `simplify` removes every d and ge it can decide from the ranges of the variables.
No sizes are ever fixed: ranges are polynomials in size terms such as GetDof(el1), known only to be >= 1.
"""
from fractions import Fraction as Fr
import itertools

_tab = {}
_uid = itertools.count()


class Atom:
    __slots__ = ("op", "args", "uid", "_bvs", "_s", "_has")

    def __repr__(self):
        return self.s

    @property
    def s(self):
        if self._s is None:
            if self.op in ("bv", "fv", "cv"):
                self._s = "%s%s" % (self.op[0] if self.op != "fv" else "", self.args[0] if self.op != "fv" else self.args[2] or "f%d" % self.args[0])
            else:
                self._s = "%s(%s)" % (self.op, ",".join(_str(a) for a in self.args)) if self.args else self.op
        return self._s

    @property
    def bvs(self):
        """bound variables occurring in the atom"""
        if self._bvs is None:
            if self.op == "bv":
                self._bvs = frozenset((self,))
            elif self.op in ("fv", "cv"):
                self._bvs = frozenset()
            else:
                r = frozenset()
                for a in self.args:
                    if isinstance(a, Atom):
                        r |= a.bvs
                    elif isinstance(a, Poly):
                        r |= a.bvs
                self._bvs = r
        return self._bvs


def _str(a):
    return a if isinstance(a, str) else repr(a)


def atom(op, *args):
    k = (op, args)
    a = _tab.get(k)
    if a is None:
        a = Atom()
        a.op, a.args, a._bvs, a._s, a._has = op, args, None, None, {}
        a.uid = next(_uid)
        _tab[k] = a
    return a


class Poly:
    __slots__ = ("m", "_h", "_b")

    def __init__(self, m=None):
        self.m = m or {}
        self._h = None
        self._b = None

    def __hash__(self):
        if self._h is None:
            self._h = hash(frozenset(self.m.items()))
        return self._h

    def __eq__(self, o):
        return isinstance(o, Poly) and self.m == o.m

    def __ne__(self, o):
        return not self == o

    @property
    def bvs(self):
        if self._b is None:
            r = set()
            for mo in self.m:
                for a, e in mo:
                    r |= a.bvs
            self._b = frozenset(r)
        return self._b

    def const(self):
        """The rational value if constant, else None."""
        if not self.m:
            return 0
        if len(self.m) == 1 and () in self.m:
            return self.m[()]
        return None

    def single(self):
        """The atom if this is exactly one atom, else None."""
        if len(self.m) == 1:
            (mo, c), = self.m.items()
            if c == 1 and len(mo) == 1 and mo[0][1] == 1:
                return mo[0][0]
        return None

    def __add__(self, o):
        o = P(o)
        if len(o.m) > len(self.m):
            self, o = o, self
        r = dict(self.m)
        for k, c in o.m.items():
            n = r.get(k)
            if n is None:
                r[k] = c
                continue
            n += c
            if n:
                r[k] = n
            else:
                del r[k]
        return Poly(r)
    __radd__ = __add__

    def __neg__(self):
        return Poly({k: -c for k, c in self.m.items()})

    def __sub__(self, o):
        return self + (-P(o))

    def __rsub__(self, o):
        return P(o) - self

    def __mul__(self, o):
        o = P(o)
        c = o.const()
        if c is not None:
            return Poly({k: v * c for k, v in self.m.items()}) if c else Poly()
        c = self.const()
        if c is not None:
            return Poly({k: v * c for k, v in o.m.items()}) if c else Poly()
        clash = self.bvs & o.bvs
        if clash:
            o = rename(o, {b: fresh_bv(b.args[1]) for b in clash})
        r = {}
        for k1, c1 in self.m.items():
            for k2, c2 in o.m.items():
                k = mulmono(k1, k2)
                n = r.get(k, 0) + c1 * c2
                if n:
                    r[k] = n
                elif k in r:
                    del r[k]
        return norm_rt(Poly(r))
    __rmul__ = __mul__

    def __repr__(self):
        if not self.m:
            return "0"
        out = []
        for mo, c in sorted(self.m.items(), key=lambda kv: [a.s for a, e in kv[0]]):
            fs = [a.s + ("^%d" % e if e != 1 else "") for a, e in mo]
            if c != 1 or not fs:
                fs.insert(0, str(c))
            out.append("*".join(fs))
        return " + ".join(out)


def mulmono(a, b):
    if not a:
        return b
    if not b:
        return a
    d = dict(a)
    for x, e in b:
        n = d.get(x, 0) + e
        if n == 0:
            del d[x]
        else:
            d[x] = 1 if x.op in ("d", "ge") and n > 0 else n
    return tuple(sorted(d.items(), key=lambda kv: kv[0].uid))


ZERO = Poly()
ONE = Poly({(): 1})


def P(x):
    if isinstance(x, Poly):
        return x
    if isinstance(x, Atom):
        return Poly({((x, 1),): 1})
    if isinstance(x, bool):
        return ONE if x else ZERO
    if isinstance(x, (int, Fr)):
        return Poly({(): (x.numerator if x.denominator == 1 else x)}) if x else ZERO
    if isinstance(x, float):
        return Poly({(): Fr(repr(x))}) if x else ZERO
    raise TypeError(x)


def norm_rt(p):
    """rt(X)^2 -> X"""
    for mo in p.m:
        for a, e in mo:
            if a.op == "rt" and (e >= 2):
                break
        else:
            continue
        break
    else:
        return p
    r = ZERO
    for mo, c in p.m.items():
        t = Poly({(): c})
        rest = []
        for a, e in mo:
            if a.op == "rt" and e >= 2:
                x = open_poly(a.args[0])
                for _ in range(e // 2):
                    t = t * x
                if e % 2:
                    rest.append((a, 1))
            else:
                rest.append((a, e))
        r = r + t * Poly({tuple(rest): 1})
    return r


_n = itertools.count(1000)


def fresh_bv(hi):
    return atom("bv", next(_n), hi)


def fresh_fv(hi, name=""):
    n = next(_n)
    return atom("fv", n, hi, "%s'%d" % (name, n))


HOLE = atom("hole")


# ---------------------------------------------------------------- substitution

def subst_atom(a, s, cache):
    """Substitute inside an atom; returns Atom or (if the atom itself is mapped) its image."""
    if a in s:
        return s[a]
    r = cache.get(a)
    if r is not None:
        return r
    if a.op in ("bv", "fv", "cv"):
        hi = a.args[1]
        h2 = subst(hi, s, cache)
        r = a if h2 is hi or h2 == hi else atom(a.op, a.args[0], h2, *a.args[2:])
    elif not a.args:
        r = a
    else:
        ch = False
        na = []
        for x in a.args:
            if isinstance(x, Atom):
                y = subst_atom(x, s, cache)
                if isinstance(y, Poly):
                    y1 = y.single()
                    y = y1 if y1 is not None else y
            elif isinstance(x, Poly):
                y = subst(x, s, cache)
            else:
                y = x
            if y is not x:
                ch = True
            na.append(y)
        r = rebuild(a.op, na) if ch else a
    cache[a] = r
    return r


def rebuild(op, args):
    if op == "d":
        return dlt(args[0])
    if op == "ge":
        return ge(args[0])
    if op == "rt":
        return rt(args[0], closed=True)
    if op == "sz":
        return sz(args[0])
    if op in ("max", "min"):
        return mx(op, args[0], args[1], closed=True)
    if op == "inv":
        return inv(args[0], closed=True)
    return atom(op, *args)


def subst(p, s, cache=None):
    if not s:
        return p
    cache = {} if cache is None else cache
    ch = False
    items = []
    for mo, c in p.m.items():
        fs = []
        for a, e in mo:
            b = subst_atom(a, s, cache)
            if b is not a:
                ch = True
            fs.append((b, e))
        items.append((fs, c))
    if not ch:
        return p
    r = ZERO
    for fs, c in items:
        t = Poly({(): c})
        plain = {}
        polys = []
        for b, e in fs:
            if isinstance(b, Atom):
                plain[b] = plain.get(b, 0) + e
            else:
                polys.append((b, e))
        plain = {b: (1 if b.op in ("d", "ge") and e > 0 else e) for b, e in plain.items() if e}
        t = Poly({tuple(sorted(plain.items(), key=lambda kv: kv[0].uid)): c})
        for b, e in polys:
            t = _rawmul(t, power_raw(b, e))
        r = r + t
    return norm_rt(r)


def power_raw(p, e):
    if e < 0:
        q = inv(p)
        p, e = (P(q) if isinstance(q, Atom) else q), -e
    r = ONE
    for _ in range(e):
        r = _rawmul(r, p)
    return r


def replace(p, fn):
    """Replace atoms by polys: fn(atom) gives a Poly whose own bound variables are fresh, or None. Bound variables
    shared with the rest of the monomial are kept."""
    r = ZERO
    for mo, c in p.m.items():
        t = Poly({(): c})
        for a, e in mo:
            q = replace_atom(a, fn)
            if isinstance(q, Atom):
                t = _rawmul(t, Poly({((q, 1 if q.op in ("d", "ge") and e > 0 else e),): 1}))
            elif e < 0:
                t = _rawmul(t, power_raw(q, e))
            else:
                t = _rawmul(t, q)
                for _ in range(e - 1):
                    q = replace_atom(a, fn)
                    t = _rawmul(t, q)
        r = r + t
    return norm_rt(r)


def replace_atom(a, fn):
    v = fn(a)
    if v is not None:
        return v
    if a.op in ("bv", "fv", "cv"):
        hi = a.args[1]
        if hi.const() is None:
            y = replace(hi, fn)
            if y != hi:
                y = plain(y)
                if not y.bvs - hi.bvs:
                    return atom(a.op, a.args[0], y, *a.args[2:])
        return a
    if not a.args:
        return a
    ch, na = False, []
    for x in a.args:
        if isinstance(x, Atom):
            y = replace_atom(x, fn)
            if isinstance(y, Poly):
                y1 = y.single()
                y = y1 if y1 is not None else y
        elif isinstance(x, Poly):
            if a.op in CLOSING:
                x0 = x
                y = replace(x, fn)
                if y == x0:
                    y = x0
                elif y.bvs:
                    # new sums inside a closed argument
                    outer = {v: P(fresh_fv(v.args[1], "o")) for v in x0.bvs}
                    if outer:
                        y = subst(y, outer)
                    c = cvs_of(y)
                    y = subst_shallow(y, {v: fresh_bv(v.args[1]) for v in c})
                    y = close_poly(simplify(y))
                    if outer:
                        y = subst(y, {q.single(): P(v) for v, q in outer.items()})
                else:
                    y = simplify(y)
            else:
                y = replace(x, fn)
                if y == x:
                    y = x
        else:
            y = x
        ch = ch or y is not x
        na.append(y)
    return rebuild(a.op, na) if ch else a


def power(p, e):
    if e >= 0:
        r = ONE
        for _ in range(e):
            r = r * p
        return r
    q = inv(p)
    return power(P(q) if isinstance(q, Atom) else q, -e)


def rename(p, s):
    """s: atom -> atom, both variables (no range substitution needed)."""
    return subst(p, s)


def refresh(p, extra=()):
    """Rename all bound variables of the given polys consistently; returns list."""
    ps = [p] + list(extra)
    b = set()
    for q in ps:
        b |= q.bvs
    s = {x: fresh_bv(x.args[1]) for x in b}
    return [subst(q, s) for q in ps]


# ---------------------------------------------------------------- closed arguments

def close_poly(p):
    """Canonical closed form: bound variables become cv."""
    p = canon(p)
    s = {b: atom("cv", b.args[0], b.args[1]) for b in p.bvs}
    return subst(p, s) if s else p


def cvs_of(p):
    out = set()
    for mo in p.m:
        for a, e in mo:
            _cvs(a, out)
    return out


def _cvs(a, out):
    if a.op == "cv":
        out.add(a)
        return
    if a.op in CLOSING:
        return
    for x in a.args:
        if isinstance(x, Atom):
            _cvs(x, out)
        elif isinstance(x, Poly):
            for mo in x.m:
                for b, e in mo:
                    _cvs(b, out)


CLOSING = {"rt", "inv", "max", "min", "fn"}


def open_poly(p):
    c = cvs_of(p)
    return subst_shallow(p, {x: fresh_bv(x.args[1]) for x in c}) if c else p


def subst_shallow(p, s):
    """Substitute cv's, but not inside closing atoms."""
    def at(a):
        if a in s:
            return s[a]
        if a.op in CLOSING or not a.args:
            return a
        na = []
        for x in a.args:
            if isinstance(x, Atom):
                na.append(at(x))
            elif isinstance(x, Poly):
                na.append(subst_shallow(x, s))
            else:
                na.append(x)
        return atom(a.op, *na) if a.op not in ("d", "ge") else rebuild(a.op, na)
    r = ZERO
    for mo, c in p.m.items():
        t = Poly({(): c})
        for a, e in mo:
            b = at(a)
            t2 = P(b) if isinstance(b, Atom) else b
            u = ONE
            if e > 0:
                for _ in range(e):
                    u = _rawmul(u, t2)
            else:
                u = Poly({((b, e),): 1})
            t = _rawmul(t, u)
        r = r + t
    return r


def _rawmul(a, b):
    r = {}
    for k1, c1 in a.m.items():
        for k2, c2 in b.m.items():
            k = mulmono(k1, k2)
            r[k] = r.get(k, 0) + c1 * c2
    return Poly({k: c for k, c in r.items() if c})


# ---------------------------------------------------------------- special atoms

def lead(p):
    """A deterministic sign-normalisation key."""
    return min(p.m, key=lambda mo: ([a.s for a, e in mo if not a.op.endswith("v")], [a.uid for a, e in mo]))


def dlt(p):
    p = plain(P(p))
    c = p.const()
    if c is not None:
        return ONE if c == 0 else ZERO
    k = min(p.m, key=lambda mo: [(a.uid, e) for a, e in mo] or [(1 << 60, 0)])
    f = p.m[k]
    if f < 0:
        p = -p
    return atom("d", p)


def ge(p):
    p = P(p)
    p = plain(p)
    c = p.const()
    if c is not None:
        return ONE if c >= 0 else ZERO
    return atom("ge", p)


def plain(p):
    """Indicators inside an index or a bound that are known there."""
    m = {}
    for mo in p.m:
        for a, e in mo:
            if a.op == "ge" and a not in m:
                q = a.args[0]
                if nonneg(q):
                    m[a] = ONE
                elif nonneg(-q - 1):
                    m[a] = ZERO
    return subst(p, m) if m else p


def rt(p, closed=False):
    if not closed:
        p = close_poly(p)
    c = p.const()
    if c is not None and c >= 0:
        import math
        a, b = math.isqrt(c.numerator), math.isqrt(c.denominator)
        if a * a == c.numerator and b * b == c.denominator:
            return P(Fr(a, b))
    return atom("rt", p)


def inv(p, closed=False):
    """1/p as Atom or Poly."""
    p0 = p
    if len(p.m) == 1:
        (mo, c), = p.m.items()
        if not any(a.bvs for a, e in mo) and not any(a.op in ("d", "ge") for a, e in mo):
            return Poly({tuple((a, -e) for a, e in mo): Fr(1) / c})
    if not p.m:
        return atom("inv", p)
    if not closed:
        p = close_poly(p)
    return atom("inv", p)


def sz(p):
    """A size: kept atomic when it is not a single product, so that it can act as a stride."""
    p = P(p)
    if len(p.m) <= 1 and not any(a.op in ("bv", "fv") for mo in p.m for a, e in mo):
        return p
    return atom("sz", p)


def mx(op, a, b, closed=False):
    if not closed:
        a, b = close_poly(P(a)), close_poly(P(b))
    if a == b:
        return open_poly(a)
    ca, cb = a.const(), b.const()
    if ca is not None and cb is not None:
        return P(max(ca, cb) if op == "max" else min(ca, cb))
    if not a.bvs and not b.bvs and not cvs_of(a) and not cvs_of(b):
        if nonneg(a - b):
            return a if op == "max" else b
        if nonneg(b - a):
            return b if op == "max" else a
    if repr(b) < repr(a):
        a, b = b, a
    return atom(op, a, b)


# ---------------------------------------------------------------- ranges and proofs

POSITIVE_OPS = {"GetDof", "GetDim", "GetNPoints", "GetHeight", "GetWidth", "Size", "NumRows", "NumCols", "Height",
                "Width", "GetVDim", "GetNE", "size", "GetOrder"}
MINONE = {"GetDof", "GetDim", "GetNPoints", "Size", "NumRows", "NumCols", "Height", "Width", "size", "GetVDim"}


def expand_sz(p):
    for mo in p.m:
        for a, e in mo:
            if a.op == "sz":
                s = {}
                for mo2 in p.m:
                    for b, e2 in mo2:
                        if b.op == "sz":
                            s[b] = b.args[0]
                return expand_sz(subst(p, s))
    return p


def size_atom(a):
    return a.op in MINONE or a.op == "posint"


def lowers(p, depth=0):
    """Lower bounds of p (the least of them bounds p from below), without index variables, or None."""
    p = expand_sz(p)
    for _ in range(40):
        v = None
        for mo in p.m:
            for a, e in mo:
                if a.op in ("bv", "fv", "cv", "hole"):
                    v = a
                    break
            if v:
                break
        if v is None:
            return [p]
        if v.op == "hole":
            return None
        coef, rest = ZERO, ZERO
        for mo, c in p.m.items():
            d = dict(mo)
            e = d.pop(v, 0)
            if e == 0:
                rest = rest + Poly({mo: c})
            elif e == 1:
                coef = coef + Poly({tuple(sorted(d.items(), key=lambda kv: kv[0].uid)): c})
            else:
                return None
        if coef.bvs or any(a.op in ("fv", "cv") for mo in coef.m for a, e in mo):
            # product of variables: only handle sign-definite coefficients
            pass
        if _nonneg_simple(coef):
            p = rest
        elif _nonneg_simple(-coef):
            p = rest + coef * (expand_sz(v.args[1]) - 1)
        elif depth < 3:
            # linear in v: the least value is at one of the ends
            x, y = lowers(rest, depth + 1), lowers(rest + coef * (expand_sz(v.args[1]) - 1), depth + 1)
            return x + y if x is not None and y is not None else None
        else:
            return None
    return None


def _nonneg_simple(p):
    """p >= 0 for all size atoms >= 1 and variables >= 0?"""
    c = p.const()
    if c is not None:
        return c >= 0
    if all(c < 0 for c in p.m.values()):
        return False
    p = expand_sz(p)
    s = {}
    for mo in p.m:
        for a, e in mo:
            if e < 0:
                return False
            if size_atom(a):
                s[a] = None
            elif a.op in ("bv", "fv", "cv"):
                continue
            elif a.op in ("ge", "d"):
                continue
            else:
                return False
    q = {}
    # substitute a = 1 + a'
    for mo, c in p.m.items():
        terms = {(): c}
        for a, e in mo:
            nt = {}
            for _ in range(e):
                nt = {}
                for k, cc in terms.items():
                    if a in s:
                        nt[k] = nt.get(k, 0) + cc
                    k2 = mulmono(k, ((a, 1),))
                    nt[k2] = nt.get(k2, 0) + cc
                terms = nt
        for k, cc in terms.items():
            q[k] = q.get(k, 0) + cc
    return all(c >= 0 for c in q.values())


FACTS = []        # polys known to be >= 0 (assumptions of the current region)


_nn = {}


def nonneg(p, facts=True):
    p = P(p)
    c = p.const()
    if c is not None:
        return c >= 0
    k = (p, tuple(FACTS) if facts else None)
    r = _nn.get(k)
    if r is None:
        r = _nn[k] = _nonneg(p, facts)
    return r


def _nonneg(p, facts):
    ls = lowers(p)
    if ls is not None and all(_nonneg_simple(l) for l in ls):
        return True
    if facts:
        for f in FACTS:
            if nonneg(p - f, False):
                return True
    return False


# ---------------------------------------------------------------- simplification

def strip_unit_vars(p):
    """Variables with a range of one value are 0."""
    s = {}
    for v in allvars(p):
        h = v.args[1].const()
        if h is not None and h <= 1:
            s[v] = ZERO
    return subst(p, s) if s else p


def allvars(p, out=None):
    out = set() if out is None else out
    for mo in p.m:
        for a, e in mo:
            _av(a, out)
    return out


def _av(a, out):
    if a.op in ("bv", "fv", "cv"):
        out.add(a)
        return
    for x in a.args:
        if isinstance(x, Atom):
            _av(x, out)
        elif isinstance(x, Poly):
            allvars(x, out)


_simp = {}


def simplify(p):
    """Decide the d() and ge() factors of each monomial where possible."""
    r = ZERO
    for mo, c in p.m.items():
        if not any(a.op in ("d", "ge") for a, e in mo):
            r = r + Poly({mo: c})
        else:
            k = (mo, tuple(FACTS))
            q = _simp.get(k)
            if q is None:
                q = _simp[k] = simp_mono(mo)
            r = r + (q * c if c != 1 else q)
    return r


def simp_mono(mo):
    for i, (a, e) in enumerate(mo):
        if a.op == "d":
            q = expand_sz_top(a.args[0])
            c = q.const()
            if c is not None:
                return simplify(Poly({mo[:i] + mo[i + 1:]: 1})) if c == 0 else ZERO
            if nonneg(q - 1) or nonneg(-q - 1):
                return ZERO
            sp = digits(q)
            rest = mo[:i] + mo[i + 1:]
            if sp:
                t = Poly({rest: 1})
                for x in sp:
                    y = dlt(x)
                    t = _rawmul(t, P(y) if isinstance(y, Atom) else y)
                return simplify(t)
            # solve for a bound variable
            for mo2, c2 in q.m.items():
                if len(mo2) == 1 and mo2[0][1] == 1 and mo2[0][0].op == "bv" and abs(c2) == 1:
                    v = mo2[0][0]
                    ex = (P(v) - q * c2) if c2 == 1 else (P(v) + q)
                    if v in ex.bvs:
                        continue
                    if nonneg(ex) and nonneg(v.args[1] - 1 - ex):
                        return simplify(subst(Poly({rest: 1}), {v: ex}))
                    nge = sum(x.op == "ge" for x, _ in rest)
                    if nge:
                        # the range of the variable becomes a condition: useful if another one implies or refutes it
                        z = subst(Poly({rest: 1}), {v: ex})
                        for w in (ex, v.args[1] - 1 - ex):
                            y = ge(w)
                            z = _rawmul(z, P(y) if isinstance(y, Atom) else y)
                        z = simplify(z)
                        if all(sum(x.op == "ge" for x, _ in m3) <= nge for m3 in z.m):
                            return z
            if q != a.args[0]:
                y = dlt(q)
                if y is not a:
                    return simplify(_rawmul(Poly({rest: 1}), P(y) if isinstance(y, Atom) else y))
    for i, (a, e) in enumerate(mo):
        if a.op == "ge":
            q = a.args[0]
            rest = mo[:i] + mo[i + 1:]
            if nonneg(q):
                return simplify(Poly({rest: 1}))
            if nonneg(-q - 1):
                return ZERO
            for b, e2 in rest:
                if b.op == "ge" and nonneg(-q - b.args[0] - 1, False):
                    return ZERO
                if b.op == "ge" and nonneg(q - b.args[0], False):
                    return simplify(Poly({rest: 1}))
                if b.op == "d" and (nonneg(-q - 1 - b.args[0], False) or nonneg(-q - 1 + b.args[0], False)):
                    return ZERO
                if b.op == "d" and (nonneg(q - b.args[0], False) or nonneg(q + b.args[0], False)):
                    return simplify(Poly({rest: 1}))
    for i, (a, e) in enumerate(mo):
        if a.op == "ge":
            rest = mo[:i] + mo[i + 1:]
            if any(a in atoms_in(Poly({((b, 1),): 1})) for b, _ in rest if b.op in ("d", "ge", "old", "Shape", "DShape")):
                return simplify(_rawmul(Poly({((a, 1),): 1}), subst(Poly({rest: 1}), {a: ONE})))
    return count_mono(mo)


def count_mono(mo):
    """A bound variable that only occurs in bounds is a count: sum over v of [L <= v][v <= U] = [L <= U](U - L + 1)."""
    vs = [a for a, e in mo if a.op == "ge"]
    for v in {x for a in vs for x in a.bvs}:
        if any(v in a.bvs and a.op != "ge" for a, e in mo):
            continue
        if any(v in b.args[1].bvs for a, e in mo for b in a.bvs if b is not v):
            continue
        lo, hi, rest, ok = ZERO, P(v.args[1]) - 1, [], True
        for a, e in mo:
            if v not in a.bvs:
                rest.append((a, e))
                continue
            q = a.args[0]
            c = q.m.get(((v, 1),), 0)
            r = q - P(v) * c
            if abs(c) != 1 or v in r.bvs:
                ok = False
                break
            if c == 1:              # v >= -r
                if nonneg(-r - lo):
                    lo = -r
                elif not nonneg(lo + r):
                    ok = False
                    break
            else:                   # v <= r
                if nonneg(hi - r):
                    hi = r
                elif not nonneg(r - hi):
                    ok = False
                    break
        if not ok:
            continue
        n = hi - lo + 1
        t = _rawmul(Poly({tuple(rest): 1}), n)
        if not nonneg(n):
            y = ge(n)
            t = _rawmul(t, P(y) if isinstance(y, Atom) else y)
        return simplify(t)
    return Poly({mo: 1})


def expand_sz_top(q):
    return q


def strides(q):
    out = []
    for mo in q.m:
        s = tuple((a, e) for a, e in mo if a.op not in ("bv", "fv", "cv"))
        if s and s not in out and all(e > 0 for a, e in s):
            out.append(s)
    return out


def divisible(mo, s):
    d = dict(mo)
    for a, e in s:
        if e <= 0 or d.get(a, 0) < e:
            return None
        d[a] -= e
        if d[a] == 0:
            del d[a]
    return tuple(sorted(d.items(), key=lambda kv: kv[0].uid))


def digits(q):
    """Split q = 0 into independent equations [A = 0, B = 0] when q = A + s*B with |A| < s."""
    for s in sorted(strides(q), key=lambda s: -sum(e for a, e in s)):
        A, B = {}, {}
        for mo, c in q.m.items():
            d = divisible(mo, s)
            if d is not None and c.denominator == 1:
                B[d] = c
            else:
                A[mo] = c
        if not A or not B:
            continue
        A, B = Poly(A), Poly(B)
        S = Poly({s: 1})
        if nonneg(S - 1 - A) and nonneg(S - 1 + A):
            return [A, B]
    # common factor
    ss = strides(q)
    if len(ss) == 1 and all(divisible(mo, ss[0]) is not None for mo in q.m):
        s = ss[0]
        if all(size_atom(a) or a.op == "sz" for a, e in s):
            return [Poly({divisible(mo, s): c for mo, c in q.m.items()})]
    return None


# ---------------------------------------------------------------- canonical form

_canon = {}


def canon(p):
    """Canonical form up to renaming of bound variables."""
    p = simplify(p)
    r = {}
    for mo, c in p.m.items():
        k = _canon.get(mo)
        if k is None:
            k = _canon[mo] = canon_mono(mo)
        n = r.get(k, 0) + c
        if n:
            r[k] = n
        elif k in r:
            del r[k]
    return Poly(r)


def _show_with(a, names):
    if a in names:
        return names[a]
    if a.op in ("bv", "fv", "cv") or not a.bvs:
        return "#%d" % a.uid
    return a.op + "(" + ",".join(
        _show_with(x, names) if isinstance(x, Atom) else
        (_show_poly(x, names) if isinstance(x, Poly) else str(x)) for x in a.args) + ")"


def _show_poly(p, names):
    if not p.bvs:
        return "#p%d" % hash(p)
    return "+".join(sorted("%s*%s" % (c, "*".join(sorted(_show_with(a, names) + "^%d" % e for a, e in mo)))
                           for mo, c in p.m.items()))


def canon_mono(mo):
    bs = set()
    for a, e in mo:
        bs |= a.bvs
    if not bs:
        return mo
    bs = list(bs)
    col = {b: "c" + repr(b.args[1]) for b in bs}
    for _ in range(4):
        new = {}
        for b in bs:
            nm = dict(col)
            nm[b] = "*"
            new[b] = "%s|%s" % (col[b], ";".join(sorted(_show_with(a, nm) + "^%d" % e for a, e in mo if b in a.bvs)))
        ranks = {s: "k%d" % i for i, s in enumerate(sorted(set(new.values())))}
        nc = {b: ranks[new[b]] + "/" + repr(b.args[1]) for b in bs}
        if len(set(nc.values())) == len(set(col.values())) and _ > 0:
            col = nc
            break
        col = nc
    groups = {}
    for b in bs:
        groups.setdefault(col[b], []).append(b)
    order = sorted(groups)
    best = None
    count = 1
    for g in order:
        for i in range(2, len(groups[g]) + 1):
            count *= i
    perms = [itertools.permutations(groups[g]) for g in order] if count <= 720 else [[tuple(groups[g])] for g in order]
    for combo in itertools.product(*perms):
        seq = [b for t in combo for b in t]
        s = {b: atom("bv", i, b.args[1]) for i, b in enumerate(seq)}
        k = _ren_mono(mo, s)
        kk = tuple((a.uid, e) for a, e in k)
        if best is None or kk < best[0]:
            best = (kk, k)
    return best[1]


def _ren_mono(mo, s):
    cache = {}
    d = {}
    for a, e in mo:
        b = subst_atom(a, s, cache)
        if isinstance(b, Poly):      # d/ge became constant: cannot happen under renaming
            b1 = b.single()
            b = b1 if b1 is not None else a
        d[b] = d.get(b, 0) + e
    return tuple(sorted(d.items(), key=lambda kv: kv[0].uid))


def same(a, b):
    return canon(P(a)) == canon(P(b))


# ---------------------------------------------------------------- queries

def atoms_in(p, out=None):
    """All atoms (recursively) in a poly."""
    out = set() if out is None else out
    for mo in p.m:
        for a, e in mo:
            _ai(a, out)
    return out


def _ai(a, out):
    if a in out:
        return
    out.add(a)
    for x in a.args:
        if isinstance(x, Atom):
            _ai(x, out)
        elif isinstance(x, Poly):
            atoms_in(x, out)


def has_op(p, ops):
    return any(a.op in ops for a in atoms_in(p))


def sum_over(p, v, b, n):
    """Sum of p over the free variable v in [0, n): occurrences become the bound variable b."""
    r = ZERO
    for mo, c in p.m.items():
        t = Poly({mo: c})
        t2 = subst(t, {v: P(b)})
        if t2 is t or t2 == t:
            r = r + t * n
        else:
            r = r + t2
    return r
