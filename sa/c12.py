"""C12: the assembled derivative of a nonlinear term is the formal derivative of the assembled term.

The normal form of the vector routine is differentiated symbolically with respect to one entry of the state it was
given; the result must be the normal form of the gradient routine, on every pair of compatible configurations.
"""
import sys
from . import term as T
from .term import P, Poly, Atom, ZERO, ONE, atom, subst
from .absint import Unsupported
from .mfemodel import is_vec, vget, mget, vsize, mdim
from . import forms, num, c11
from .report import main


def derivative(p, x, J, dec):
    """d p / d x[J], as a polynomial; sums stay implicit."""
    r = ZERO
    for mo, c in p.m.items():
        for i, (a, e) in enumerate(mo):
            da = datom(a, x, J, dec)
            if da == ZERO:
                continue
            rest = {}
            for k, (b, n) in enumerate(mo):
                rest[b] = n - 1 if k == i else n
            q = Poly({tuple(sorted(((b, n) for b, n in rest.items() if n), key=lambda kv: kv[0].uid)): c * e})
            r = r + T._rawmul(q, da)
    return r


def mentions(a, x):
    return any(b.op == "old" and b.args[0] is x for b in T.atoms_in(P(a)))


def opened(a, q):
    outer = {v: P(T.fresh_fv(v.args[1], "o")) for v in q.bvs}
    y = T.open_poly(subst(q, outer) if outer else q)
    return y, {v.single(): P(k) for k, v in outer.items()}


def dclosed(a, q, x, J, dec):
    """derivative of an argument of a closing atom"""
    y, back = opened(a, q)
    d = derivative(y, x, J, dec)
    return subst(d, back) if back else d


def datom(a, x, J, dec):
    if a.op == "old" and a.args[0] is x:
        return P(T.dlt(P(a.args[1]) - P(J)))
    if not mentions(a, x):
        return ZERO
    if a.op in ("ge", "d", "bool", "nonnull"):
        return ZERO
    if a.op == "rt":
        return Poly({(): T.Fr(1, 2)}) * T._rawmul(P(T.inv(P(a))), dclosed(a, a.args[0], x, J, dec))
    if a.op == "inv":
        return Poly({(): -1}) * T._rawmul(P(a) * P(a), dclosed(a, a.args[0], x, J, dec))
    if a.op == "abs":
        g = sign(a.args[0], dec)
        return T._rawmul(P(2) * g - ONE, dclosed(a, a.args[0], x, J, dec))
    if a.op in ("max", "min"):
        u, v = a.args
        if a.op == "min":
            u, v = v, u
        g = sign(P(u) - P(v), dec)
        return T._rawmul(g, dclosed(a, P(a.args[0]), x, J, dec)) + \
            T._rawmul(ONE - g, dclosed(a, P(a.args[1]), x, J, dec))
    raise Unsupported("derivative of " + a.op)


def sign(q, dec):
    """1 where q > 0, as decided in this configuration; a tie has no derivative and is left out"""
    for s, p in ((True, q), (False, -q)):
        g = P(T.ge(p)).single()
        if g is not None and g in dec:
            return ONE if dec[g] == s else ZERO
    return P(T.ge(q))


def untie(p):
    """One orientation for comparisons of state values, which are generically unequal: ge(-q) -> 1 - ge(q)"""
    def f(a):
        if a.op == "ge" and any(b.op == "old" for b in T.atoms_in(P(a))):
            q = P(a.args[0])
            if q.const() is None and str(T.canon(-q)) < str(T.canon(q)):
                n = P(T.ge(-q)).single()
                if n is not None and n is not a:
                    return ONE - P(n)
        return None
    return T.replace(p, f)


def states(o, nm, wh, how):
    """[(state vector, name of the gradient output)] of an output vector"""
    n = int(nm[-1])
    if wh == "interface":
        return [("vec%d" % j, "outmats1(%d, %d)" % (n - 1, j - 1)) for j in (1, 2)]
    return [("vec1", "outmat1")]


def check(prog, R, unit):
    cls, (wh, how), d = unit
    rv, rg = forms.runs(prog, R, d["vector"]), forms.runs(prog, R, d["grad"])
    if not rv or not rg:
        return
    R.count("pairs")
    R.sample("%s: derivative of %s against %s" % (cls, d["vector"].short, d["grad"].short))
    for r1 in rv:
        for r2 in rg:
            if r1.ok and r2.ok and c11.agree(r1, r2):
                R.count("configuration_pairs")
                try:
                    compare(R, d["vector"], d["grad"], r1, r2, wh, how)
                except Unsupported as ex:
                    R.note("undecided: %s: %s" % (d["grad"], ex))
                    R.count("configuration_pairs_undecided")


def compare(R, e1, e2, r1, r2, wh, how):
    key = "%s:%s:%s" % (e2.cls, wh, how)
    o1, o2 = dict(forms.outputs(r1)), dict(forms.outputs(r2))
    cond = c11.union(r1, r2)
    dec = dict(cond)
    size = {}
    if how == "fast":       # one basis: the sizes of its precomputed values and of the state agree
        for r in (r1, r2):
            u, ok = c11.unify(r, wh)
            if u is None:
                return
            size.update(u)
    for nm, o in o1.items():
        if not is_vec(o):
            continue
        for st, gn in states(o, nm, wh, how):
            if gn not in o2:
                R.note("undecided: %s has no %s" % (e2, gn))
                continue
            g = o2[gn]
            x = atom("par", st)
            for (i1, i2), vs, v in forms.values(r2, g):
                if how == "fast":
                    v = v - P(atom("old", g.a, P(i1) + T.sz(mdim(r2.I, g)[0]) * P(i2)))
                f = vget(r1.I, o, P(i1))
                if how == "fast":
                    f = f - P(atom("old", o.a, P(i1)))
                f = T.canon(r2.I.norm(r1.I.norm(f)))
                want = derivative(f, x, i2, dec)
                R.count("obligations")
                norm = lambda p: T.canon(T.simplify(untie(subst(r2.I.norm(r1.I.norm(p)), size))))
                a, b = norm(want), norm(v)
                if T.canon(a - b) == ZERO:
                    R.count("obligations_equal_by_normal_form")
                    continue
                w = num.differ(a, b, vs, cond)
                if isinstance(w, tuple):
                    dd = T.canon(a - b)
                    ex = "; ".join(str(Poly({m: c}))[:200] for m, c in list(dd.m.items())[:2])
                    R.violation(key, forms.where(e2.f), "%s is not the derivative of %s in %s at %s, %s when [%s]: "
                                "derivative minus assembled: %s" % (e2.short, e1.short, gn, i1, i2, ", ".join(
                                    ("" if s else "not ") + k.s[:60] for k, s in cond), ex), e2.name)
                elif w is None:
                    R.count("obligations_equal_under_all_interpretations_tried")
                else:
                    R.count("obligations_undecided")
                    R.note("undecided: %s in %s" % (e2, gn))


def run(prog, R):
    R.rule = ("Normal forms by abstract interpretation: the formal derivative of the vector routine's normal form with "
              "respect to one state entry = the gradient routine's normal form, for full, point-wise and precomputed "
              "routines, on every pair of compatible configurations. A difference of normal forms is reported when an "
              "interpretation of the uninterpreted terms separates them.")
    groups = {}
    for cls, ents in forms.by_class(prog).items():
        for e in ents:
            k = c11.kind(e)
            if k:
                groups.setdefault((cls, k[1:]), {})[k[0]] = e
    units = sorted(((c, k, d) for (c, k), d in groups.items() if len(d) == 2),
                   key=lambda u: ("Lax" not in u[0], u[1][1] == "fast", u[0], u[1]))
    forms.parallel(prog, R, check, units)


if __name__ == "__main__":
    sys.exit(main("C12", run, {"functions_parsed": 100, "pairs": 3}))
