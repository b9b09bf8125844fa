"""C13: what leaves one side of a face enters the other; symmetric couplings treat both sides alike.

On normal forms. Exchange: renaming side 1 <-> 2 (elements, their transformations, points and states; the normal changes
sign) maps the contribution to one side onto that to the other. Balance: with the test function taken out, the
contributions to the two sides add up to zero.
"""
import sys
from . import term as T
from .term import P, Poly, Atom, ZERO, ONE, atom, subst
from .absint import Unsupported
from . import forms, num, sides, c12
from .report import main

# class -> (exchange, balance): which of the two the term is built to satisfy
SPEC = {
    "DGLaxFriedrichsFluxIntegrator": (True, True),
    "DGVectorDiffusionIntegrator": (True, True),
    "InterfaceDGDiffusionIntegrator": (True, True),
    "InterfaceDGVectorDiffusionIntegrator": (True, True),
    "InterfaceDGElasticityIntegrator": (True, True),
    "DGNormalFluxIntegrator": (True, False),
    "InterfaceDGNormalFluxIntegrator": (True, False),
}
OPP = {"el1": "el2", "el2": "el1", "el3": "el4", "el4": "el3"}


KIND = {"el2": "el1", "el4": "el3", "tr2": "tr1"}


def same_kind(a):
    """The neighbours of a face have the same kind of function space and the same geometry."""
    if a.op in ("Space", "GetGeomType", "GetGeometryType", "GetMapType", "GetRangeType"):
        x = a.args[0]
        if x.op == "par" and x.args[0] in KIND:
            return P(atom(a.op, atom("par", KIND[x.args[0]])))
        if x.op == "Elem2":
            return P(atom(a.op, atom("Elem1", *x.args)))
    return None


def conds(r, wh, swapped):
    d = {}
    for k, v in r.cond:
        p = P(k)
        if swapped:
            try:
                p = sides.split_state(r, p, wh)
                p = sides.swap(p, wh)
            except Unsupported:
                continue
        else:
            try:
                p = sides.split_state(r, p, wh)
            except Unsupported:
                continue
        p = T.canon(c12.untie(T.replace(p, same_kind)))
        s = p.single()
        if s is None:
            s = (ONE - p).single()
            v = not v
        if s is not None:
            d[s] = v
    return d


def compatible(d1, d2):
    return all(d2.get(k, v) == v for k, v in d1.items())


def check(prog, R, unit):
    cls, e, (exchange, balance) = unit
    wh = sides.where_of(e)
    rs = forms.runs(prog, R, e)
    if not rs:
        return
    ok = [r for r in rs if r.ok]
    bl = []
    for r in ok:
        try:
            bl.append(sides.blocks(r, wh))
        except Unsupported as ex:
            R.note("undecided: %s: %s" % (e, ex))
            bl.append(None)
    plain = [conds(r, wh, False) for r in ok]
    swapped = [conds(r, wh, True) for r in ok]
    for r, b, sc in zip(ok, bl, swapped):
        if b is None:
            continue
        if exchange:
            for r2, b2, pc in zip(ok, bl, plain):
                if b2 is not None and compatible(sc, pc):
                    swap(R, e, wh, r, b, r2, b2)
        if balance:
            try:
                conserve(R, e, wh, r, b)
            except Unsupported as ex:
                R.note("undecided: balance of %s: %s" % (e, ex))


def swap(R, e, wh, r, b, r2, b2):
    for k, (vs, v, nm) in b.items():
        k2 = (k[0],) + tuple(OPP.get(x, x) for x in k[1:])
        if k2 not in b2 or k2 < k:
            continue
        ws, w, nm2 = b2[k2]
        R.count("exchange_obligations")
        try:
            a = sides.swap_block(vs, v, ws, wh)
        except Unsupported as ex:
            R.note("undecided: exchange in %s: %s" % (e, ex))
            continue
        decide(R, "exchange", e, r2, a, w, [x for l in ws for x in l], "exchanging the two sides turns the contribution to %s "
               "into something else than the contribution to %s" % ("/".join(k[1:]), "/".join(k2[1:])))


def decide(R, what, e, r, a, w, vs, msg):
    n = lambda p: T.canon(c12.untie(p))
    a, w = n(a), n(w)
    if T.canon(a - w) == ZERO:
        R.count("obligations_equal_by_normal_form")
        return
    c = num.differ(a, w, vs, list(r.cond))
    if isinstance(c, tuple):
        d = T.canon(a - w)
        ex = "; ".join(str(Poly({m: c}))[:200] for m, c in list(d.m.items())[:2])
        R.violation("%s:%s:%s" % (e.cls, e.short, what), forms.where(e.f), "%s, when [%s]: difference %s" % (
            msg, r.label()[:300], ex), e.name)
    elif c is None:
        R.count("obligations_equal_under_all_interpretations_tried")
    else:
        R.count("obligations_undecided")
        R.note("undecided: %s of %s" % (what, e))


TEST = atom("test")


def density(p, dof, other):
    """The terms tested with the function itself (not its gradient), that function taken out."""
    out = ZERO
    for mo, c in p.m.items():
        hit = [a for a, n in mo if a.op == "Shape" and n == 1 and a.args[2].single() is dof]
        if len(hit) != 1:
            if any(dof in T.atoms_in(P(a)) and a.op == "DShape" for a, n in mo) and not hit:
                continue
            raise Unsupported("test function")
        q = Poly({tuple(x for x in mo if x[0] is not hit[0]): c})
        if dof in T.atoms_in(q):
            raise Unsupported("test function")
        out = out + q
    return out


def cases(p, rows, cols):
    """Off-diagonal entries of a diagonal block, above and below the diagonal."""
    i, j = P(rows[0]), P(cols[0])
    if not any(a.op in ("d", "ge") and rows[0] in T.atoms_in(P(a)) for mo in p.m for a, n in mo):
        return [p]
    res = []
    for lt in (True, False):
        def fn(a):
            if a.op == "d" and a.args[0] in (i - j, j - i):
                return ZERO
            if a.op == "ge":
                q = a.args[0]
                for s, x in ((True, j - i), (False, i - j)):
                    for k in (0, 1):
                        if q == x - k:
                            return ONE if s == lt else ZERO
            return None
        res.append(T.simplify(T.replace(p, fn)))
    return res


def conserve(R, e, wh, r, b):
    for k, (vs, v, nm) in b.items():
        if k[1] != "el1":
            continue
        k2 = (k[0], "el2") + k[2:]
        if k2 not in b:
            continue
        ws, w, nm2 = b[k2]
        same = {}
        # same component of the test function, same trial position
        for x, y in list(zip(ws[0][1:], vs[0][1:])) + ([z for z in zip(ws[1], vs[1])] if len(vs) > 1 else []):
            same[x] = P(y)
        w = subst(w, same)
        R.count("balance_obligations")
        if len(vs) == 1:
            decide(R, "balance", e, r, density(v, vs[0][0], None), -density(w, ws[0][0], None),
                   list(vs[0][1:]), "what is added to one side is not taken from the other")
            continue
        cols = vs[1]
        ps = cases(v, vs[0], cols) if k[2] == "el1" else [v]
        qs = cases(w, [ws[0][0]], cols) if k[2] == "el2" else [w]
        for x in ps:
            for y in qs:
                decide(R, "balance", e, r, density(x, vs[0][0], None), -density(y, ws[0][0], None),
                       list(vs[0][1:]) + list(cols), "what is added to one side is not taken from the other (trial side %s)" % k[2])


def run(prog, R):
    R.rule = ("Normal forms by abstract interpretation of the face and interface routines. Exchange of the sides maps the "
              "block of one side onto the block of the other; for conservative terms, the densities tested on the two sides "
              "add up to zero. A difference of normal forms is reported when an interpretation of the uninterpreted terms "
              "separates them.")
    units = []
    for cls, ents in forms.by_class(prog).items():
        sp = SPEC.get(cls.split("::")[-1])
        if sp:
            units += [(cls, e, sp) for e in ents if sides.where_of(e) != "element" and not e.short.endswith("_Fast")]
    units.sort(key=lambda u: ("Lax" not in u[0], u[1].name))
    forms.parallel(prog, R, check, units)


if __name__ == "__main__":
    sys.exit(main("C13", run, {"functions_parsed": 100, "exchange_obligations": 10}))
