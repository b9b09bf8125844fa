"""C26: an interface coupling adds what an interior face adds.

Both routines of a term are brought to normal form; the face routine, with its second element reached through the second
transformation, must give the interface routine's blocks.
"""
import sys
from . import term as T
from .term import P, Poly, Atom, ZERO, ONE, atom, subst
from .absint import Unsupported
from . import forms, num, sides, c12, c13
from .report import main

PAIRS = [("DGVectorDiffusionIntegrator", "InterfaceDGVectorDiffusionIntegrator"),
         ("DGNormalFluxIntegrator", "InterfaceDGNormalFluxIntegrator"),
         ("DGLaxFriedrichsFluxIntegrator", "DGLaxFriedrichsFluxIntegrator"),
         ("DGTemamFluxIntegrator", "InterfaceDGTemamFluxIntegrator")]


def pairs(by):
    """[(interface routine, face routine)]"""
    out = []
    name = lambda e: e.short.replace("Interface", "Face")
    for f, i in PAIRS:
        for e in by.get(i, []):
            if sides.where_of(e) != "interface" or e.short.endswith("_Fast"):
                continue
            for o in by.get(f, []):
                if sides.where_of(o) == "face" and name(o) == name(e):
                    out.append((e, o))
    return out


def to_interface(p):
    """A face routine's term, the second element reached through the second transformation."""
    tr1, tr2 = atom("par", "tr1"), atom("par", "tr2")
    atoms = T.atoms_in(p)
    m = {}
    for a in atoms:
        if a.op == "Elem2" and a.args[0] is tr1:
            m[a] = P(atom("Elem1", tr2, *a.args[1:]))
        elif a.op == "fld" and a.args[0] is tr1 and str(a.args[1]) in ("Elem2No", "Elem2Inf"):
            m[a] = P(atom("fld", tr2, str(a.args[1]).replace("2", "1")))
    base = dict(m)
    for a in atoms:
        if a.op == "eip2" and a.args[0] is tr1:
            m[a] = P(atom("eip1", tr2, *[sides.img(x, base) for x in a.args[1:]]))
    return T.canon(T.simplify(subst(p, m)))


def table(r, wh, fn=None):
    """{atom: decision} in comparable spelling."""
    d = {}
    for k, v in r.cond:
        p = P(k)
        try:
            p = sides.split_state(r, p, wh)
        except Unsupported:
            continue
        p = T.canon(c12.untie(T.replace(fn(p) if fn else p, c13.same_kind)))
        s = p.single()
        if s is None:
            s, v = (ONE - p).single(), not v
        if s is not None:
            d[s] = v
    return d


def at_first(p):
    """A coefficient taken at the face = at the same point of the first element."""
    tr1 = atom("par", "tr1")

    def fn(a):
        if a.op in ("Eval", "VEval", "MEval") and a.args[1] is tr1 and isinstance(a.args[2], Atom):
            return P(atom(a.op, a.args[0], atom("Elem1", tr1), atom("eip1", tr1, a.args[2]), *a.args[3:]))
        return None
    return T.canon(T.replace(p, fn))


def interior(r):
    """The face has a second element in this configuration."""
    return any(str(k).startswith("ge(fld(par(tr1),Elem2No") and v for k, v in r.cond)


def matched(prog, R, e, rs, other):
    """(interface run, face run, positions, interface value, face value, name) of corresponding blocks."""
    fs = [f for f in forms.runs(prog, R, other) or [] if f.ok]
    fs = [f for f in fs if interior(f)] or fs
    fb = []
    for f in fs:
        try:
            fb.append((sides.blocks(f, "face"), table(f, "face", to_interface)))
        except Unsupported as ex:
            R.note("undecided: %s: %s" % (other, ex))
    for r in rs:
        try:
            b, d = sides.blocks(r, "interface"), table(r, "interface")
        except Unsupported as ex:
            R.note("undecided: %s: %s" % (e, ex))
            continue
        for c, fd in fb:
            if not c13.compatible(d, fd):
                continue
            R.count("configuration_pairs")
            for k, (vs, v, nm) in b.items():
                if k not in c:
                    R.count("blocks_without_counterpart")
                    continue
                ws, w, _ = c[k]
                try:
                    w = sides.rename_positions(ws, vs, to_interface(w))
                except Unsupported as ex:
                    R.note("undecided: %s: %s" % (e, ex))
                    continue
                yield r, c, vs, v, w, nm


def check(prog, R, unit):
    e, other = unit
    rs = [r for r in forms.runs(prog, R, e) or [] if r.ok]
    R.count("pairs")
    for r, c, vs, v, w, nm in matched(prog, R, e, rs, other):
        R.count("obligations")
        c13.decide(R, "interface", e, r, at_first(v), at_first(w), [x for l in vs for x in l],
                   "%s is not what %s adds for the same face" % (nm, other))


def run(prog, R):
    R.rule = __doc__.replace("\n", " ")
    by = {c.split("::")[-1]: es for c, es in forms.by_class(prog).items()}
    units = sorted(pairs(by), key=lambda u: ("Lax" not in u[0].cls, u[0].name))
    forms.parallel(prog, R, check, units)


if __name__ == "__main__":
    sys.exit(main("C26", run, {"functions_parsed": 100}))
