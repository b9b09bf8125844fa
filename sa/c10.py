"""C10: the coupling of two neighbours keeps their sides apart.

On normal forms of the interface and face routines:
 - every function value, gradient, Jacobian and coefficient of one side is taken at that side's point and through that side's
   transformation, the state of a side meets the functions of that side, a numbering over one side's functions is not used
   for the other's, and the block (i,j) has the rows of side i and the columns of side j;
 - a block that becomes what the interior-face routine adds (or what the exchange of the sides demands) only when the two
   sides are no longer told apart mixes them up.
"""
import re
import sys
from . import term as T
from .term import P, Poly, Atom, ZERO, ONE, atom, subst
from .absint import Unsupported
from .mfemodel import is_vec, is_mat, vget, mget, vsize, mdim
from . import forms, integ, num, sides, c12, c13
from .report import main

SIDE = {"el1": 1, "el2": 2, "el3": 1, "el4": 2, "vec1": 1, "vec2": 2, "outvec1": 1, "outvec2": 2}
PAIRS = [("DGVectorDiffusionIntegrator", "InterfaceDGVectorDiffusionIntegrator"),
         ("DGNormalFluxIntegrator", "InterfaceDGNormalFluxIntegrator"),
         ("DGLaxFriedrichsFluxIntegrator", "DGLaxFriedrichsFluxIntegrator"),
         ("DGTemamFluxIntegrator", "InterfaceDGTemamFluxIntegrator")]
POINTED = ("Shape", "DShape", "InvJ", "Weight", "Eval", "VEval", "MEval", "VShape", "PhysDShape", "Jac")


def side(x, wh):
    """1 or 2 when the object belongs to a side; None for the face itself; 0 when there is no such thing."""
    if not isinstance(x, Atom):
        x = x.single() if isinstance(x, Poly) else None
        if x is None:
            return None
    if x.op == "par":
        n = x.args[0]
        if n in SIDE:
            return SIDE[n]
        return None
    if x.op in ("Elem1", "Elem2", "eip1", "eip2"):
        t = x.args[0]
        k = int(x.op[-1])
        if t.op != "par":
            return None
        if wh == "interface":
            return 0 if k == 2 else 2 if t.args[0] == "tr2" else 1
        return k
    if x.op == "fld" and x.args[0].op == "par" and str(x.args[1])[:5] in ("shape", "dshap"):
        return int(str(x.args[1])[-1]) if str(x.args[1])[-1] in "12" else None
    return None


def vside(v, wh):
    """Side whose functions a counting variable numbers."""
    if len(v.args) < 2:
        return None
    res = set()
    for a in T.atoms_in(P(v.args[1])):
        if a.op in ("GetDof", "Size", "Width"):
            s = side(a.args[0], wh)
            if s:
                res.add(s)
    return res.pop() if len(res) == 1 else None


BV = ("bv", "fv", "cv", "elemv")


def vars_in(p):
    return [a for a in T.atoms_in(P(p)) if a.op in BV]


def local(p, wh, fast=False):
    """Mixed-up sides inside a normal form: messages."""
    out = {}

    def atom_(a):
        if a.op in POINTED:
            ss = [(side(x, wh), x) for x in a.args[:3] if isinstance(x, Atom)]
            for s, x in ss:
                if s == 0:
                    out["the first transformation of an interface has no second element: %s in %s" % (x, a)] = a
            k = {s for s, x in ss if s}
            if len(k) > 1:
                out["%s combines the two sides" % a] = a
            own = k.pop() if len(k) == 1 else None
            if own and a.op in ("Shape", "DShape"):
                numbering(a, own, a.args[2])
        elif a.op == "old":
            s = side(a.args[0], wh)
            if s:
                numbering(a, s, a.args[1])

    def numbering(a, s, index):
        if wh == "face" and fast:
            return      # both sides of a face share one basis
        for v in vars_in(index):
            t = vside(v, wh)
            if t and t != s:
                out["%s of side %d is numbered by the functions of side %d" % (a.s[:160], s, t)] = a

    def poly(q):
        for mo, c in q.m.items():
            ds = [a for a, n in mo if a.op == "DShape"]
            js = [a for a, n in mo if a.op == "InvJ"]
            for d in ds:
                s = side(d.args[0], wh)
                if len(d.args) < 4 or s is None:
                    continue
                b = d.args[3]
                b = b.single() if isinstance(b, Poly) else b
                if not isinstance(b, Atom) or b.op not in BV:
                    continue
                for j in js:
                    r = j.args[2]
                    r = r.single() if isinstance(r, Poly) else r
                    t = side(j.args[0], wh)
                    if r is b and t and t != s:
                        out["gradient of a function of side %d through the Jacobian of side %d: %s" % (s, t, j)] = j
            if wh == "interface":
                st = [(a, side(a.args[0], wh)) for a, n in mo if a.op == "old"]
                for a, s in st:
                    if s is None or a.args[0].op != "par":
                        continue
                    mine = set(vars_in(a.args[1]))
                    for b, t in st:
                        if t and t != s and b.args[0].op == "fld" and mine & {v for v in vars_in(b.args[1]) if vside(v, wh)}:
                            out["state of side %d with functions of side %d: %s" % (s, t, b)] = b
            for a, n in mo:
                atom_(a)
                for x in a.args:
                    if isinstance(x, Poly):
                        poly(x)
                    elif isinstance(x, Atom):
                        poly(P(x))
    poly(p)
    return out


INDEX = re.compile(r"\((\d), (\d)\)$")


def place(nm, o):
    """The sides an output belongs to, by its position: outvec2 -> (2,), outmats1(0, 1) -> (1, 2)."""
    m = INDEX.search(nm)
    if m:
        return tuple(int(x) + 1 for x in m.groups())
    if nm.startswith("outvec") and nm[6:7] in "12":
        return (int(nm[6]),)
    return None


def ranges(v, wh):
    return {s for s in (vside(x, wh) for x in v) if s}


def check(prog, R, unit):
    kind, e, other = unit
    wh = sides.where_of(e)
    rs = [r for r in forms.runs(prog, R, e) or [] if r.ok]
    fast = e.short.endswith("_Fast")
    if kind == "local":
        for r in rs:
            for nm, o in forms.outputs(r):
                try:
                    entry(R, e, wh, r, nm, o, fast)
                except Unsupported as ex:
                    R.note("undecided: %s: %s" % (e, ex))
        if not fast:
            exchange(R, e, wh, rs)
    else:
        compare(prog, R, e, rs, other)


def entry(R, e, wh, r, nm, o, fast):
    pl = place(nm, o) if wh == "interface" else None
    if is_vec(o):
        parts = [((i1,), (v1,)) for i1, v1, m1 in integ.probes(r.I, vsize(r.I, o))]
    else:
        h, w = mdim(r.I, o)
        parts = [((i1, i2), (v1, v2)) for i1, v1, m1 in integ.probes(r.I, h) for i2, v2, m2 in integ.probes(r.I, w)]
    for idx, vs in parts:
        p = vget(r.I, o, idx[0]) if is_vec(o) else mget(r.I, o, *idx)
        p = T.canon(r.I.norm(T.canon(p)))
        if wh == "face" and not fast:
            p = sides.split_state(r, p, wh)
        R.count("blocks_inspected")
        for msg in local(p, wh, fast):
            R.violation("%s:%s:side" % (e.cls, e.short), forms.where(e.f), "%s mixes up the two sides: %s, when [%s]" % (
                nm, msg, r.label()[:200]), e.name)
        if pl:
            for k, v in zip(pl, vs):
                g = ranges(v, wh)
                if g and g != {k}:
                    R.violation("%s:%s:place" % (e.cls, e.short), forms.where(e.f), "%s, the place of side %d, is sized by "
                                "side %d" % (nm, k, g.pop()), e.name)


def merge(p):
    """Both sides taken for the same."""
    one = lambda n: atom("par", n[:-1] + {"2": "1", "4": "3"}[n[-1]])
    base = {atom("par", n): P(one(n)) for n in ("el2", "vec2", "tr2", "el4", "outvec2")}
    base[atom("fld", atom("par", "eqp1"), "shape2")] = P(atom("fld", atom("par", "eqp1"), "shape1"))
    for _ in range(3):
        m = dict(base)
        for a in T.atoms_in(p):
            if a.op in ("Elem2", "eip2"):
                m[a] = P(atom(a.op[:-1] + "1", *[sides.img(x, base) for x in a.args]))
        p = T.canon(T.simplify(subst(p, m)))
    return p


def fold(p):
    return T.canon(c12.untie(merge(p)))


def mixup(R, e, r, a, w, vs, msg):
    """Report when a and w differ, but not when the sides are taken for one."""
    n = lambda p: T.canon(c12.untie(p))
    a, w = n(a), n(w)
    d = T.canon(a - w)
    R.count("obligations")
    if d == ZERO:
        return
    try:
        same = T.canon(fold(a) - fold(w)) == ZERO
    except Unsupported:
        same = False
    if not same:
        R.count("obligations_left_to_other_checks")
        return
    if isinstance(num.differ(a, w, vs, list(r.cond)), tuple):
        ex = "; ".join(str(Poly({m: c}))[:200] for m, c in list(d.m.items())[:2])
        R.violation("%s:%s:mixup" % (e.cls, e.short), forms.where(e.f), "%s, but only by a mix-up of the sides, when [%s]: "
                    "difference %s" % (msg, r.label()[:200], ex), e.name)


def exchange(R, e, wh, ok):
    sp = c13.SPEC.get(e.cls.split("::")[-1])
    if not sp or not sp[0]:
        return
    bl = []
    for r in ok:
        try:
            bl.append(sides.blocks(r, wh))
        except Unsupported:
            bl.append(None)
    plain = [c13.conds(r, wh, False) for r in ok]
    swapped = [c13.conds(r, wh, True) for r in ok]
    for r, b, sc in zip(ok, bl, swapped):
        for r2, b2, pc in zip(ok, bl, plain):
            if b is None or b2 is None or not c13.compatible(sc, pc):
                continue
            for k, (vs, v, nm) in b.items():
                k2 = (k[0],) + tuple(c13.OPP.get(x, x) for x in k[1:])
                if k2 not in b2 or k2 < k:
                    continue
                ws, w, nm2 = b2[k2]
                try:
                    a = sides.swap_block(vs, v, ws, wh)
                except Unsupported:
                    continue
                mixup(R, e, r2, a, w, [x for l in ws for x in l], "the block of the second side is not the exchanged block of the first")


def compare(prog, R, e, rs, other):
    """Interface routine e against the interior-face routine `other`."""
    from . import c26
    for r, f, vs, a, w, nm in c26.matched(prog, R, e, rs, other):
        mixup(R, e, r, c26.at_first(a), c26.at_first(w), vs, "%s differs from what the interior-face routine adds" % nm)


def run(prog, R):
    R.rule = __doc__.replace("\n", " ")
    units = []
    by = {c.split("::")[-1]: es for c, es in forms.by_class(prog).items()}
    for cls, ents in sorted(by.items()):
        units += [("local", e, None) for e in ents if sides.where_of(e) != "element"]
    from . import c26
    units += [("compare", e, o) for e, o in c26.pairs(by)]
    units.sort(key=lambda u: ("Lax" not in u[1].cls, u[1].name))
    forms.parallel(prog, R, check, units)


if __name__ == "__main__":
    sys.exit(main("C10", run, {"functions_parsed": 100, "blocks_inspected": 20}))
