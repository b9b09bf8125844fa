"""Exchange of the two sides of a face or interface, on normal forms."""
from . import term as T
from .term import P, Poly, Atom, ZERO, ONE, atom, subst
from .absint import Unsupported
from .mfemodel import is_vec, is_mat, vget, mget, vsize, mdim
from . import forms, integ

PAR = lambda n: atom("par", n)
DIM = atom("GetDim")
PAIRS = [("el1", "el2"), ("el3", "el4"), ("vec1", "vec2"), ("outvec1", "outvec2")]


def where_of(e):
    trs = [p for p, nm, o in e.par if nm.startswith("tr")]
    if len(trs) == 2:
        return "interface"
    return "face" if any("FaceElement" in p["t"] for p in trs) else "element"


def atoms_of(p):
    """All atoms of a polynomial, also inside ranges and closed arguments."""
    return T.atoms_in(p)


def swap_map(atoms, wh):
    """atom -> image under the exchange of the sides; the face normal changes sign"""
    s = {}
    for a, b in PAIRS:
        s[PAR(a)], s[PAR(b)] = P(PAR(b)), P(PAR(a))
    eq = PAR("eqp1")
    for f in ("shape", "dshape"):
        x, y = atom("fld", eq, f + "1"), atom("fld", eq, f + "2")
        s[x], s[y] = P(y), P(x)
    tr1, tr2 = PAR("tr1"), PAR("tr2")
    if wh == "interface":
        other = lambda op, tr: (op, tr2 if tr is tr1 else tr1)
    else:
        other = lambda op, tr: (op[:-1] + ("2" if op[-1] == "1" else "1"), tr)
    for a in atoms:
        if a.op in ("Elem1", "Elem2"):
            op, t = other(a.op, a.args[0])
            s[a] = P(atom(op, t, *a.args[1:]))
    base = dict(s)
    for a in atoms:
        if a.op in ("eip1", "eip2"):
            op, t = other(a.op, a.args[0])
            s[a] = P(atom(op, t, *[img(x, base) for x in a.args[1:]]))
        elif a.op == "Ortho":
            s[a] = -P(atom("Ortho", a.args[0], *[img(x, base) for x in a.args[1:]]))
        elif a.op == "ip.x" and a.args[0].op in ("eip1", "eip2"):
            i = a.args[0]
            s[a] = ONE - P(atom("ip.x", atom(i.op, i.args[0], *[img(x, base) for x in i.args[1:]])))
    return s


def img(x, s):
    if isinstance(x, Atom):
        q = subst(P(x), s)
        return q.single() or q
    if isinstance(x, Poly):
        return subst(x, s)
    return x


def swap(p, wh):
    return T.simplify(subst(p, swap_map(atoms_of(p), wh)))


def split_state(r, p, wh):
    """Face routines: the state of the second element becomes vec2, numbered from 0."""
    if wh != "face":
        return p
    v1 = PAR("vec1")
    off = r.I.norm(P(DIM) * P(atom("GetDof", PAR("el1"))))
    s = {}
    for a in atoms_of(p):
        if a.op == "old" and a.args[0] is v1:
            A = P(a.args[1])
            el = {str(w) for x in T.atoms_in(A) if x.op in ("bv", "fv", "cv") for w in T.atoms_in(P(x.args[1])) if w.op == "par"}
            if el == {"par(el2)"}:
                s[a] = P(atom("old", PAR("vec2"), T.simplify(A - off)))
            elif el != {"par(el1)"}:
                raise Unsupported("state entry " + a.s)
    return subst(p, s)


def side_of(vs):
    """The element whose functions a position runs over."""
    el = {str(w)[4:-1] for f in vs for w in T.atoms_in(P(f.args[1])) if w.op == "par"}
    if len(el) != 1:
        raise Unsupported("position of unknown side")
    return next(iter(el))


def blocks(r, wh):
    """{(output, side of each position..): (position variables.., value)}; outputs of both routines named alike:
    'v' for vectors, 'm' for matrices."""
    res = {}
    for nm, o in forms.outputs(r):
        if is_vec(o):
            for i1, v1, m1 in integ.probes(r.I, vsize(r.I, o)):
                v = T.canon(vget(r.I, o, i1))
                put(res, ("v", side_of(v1)), (v1,), split_state(r, r.I.norm(v), wh), nm)
        else:
            h, w = mdim(r.I, o)
            for i1, v1, m1 in integ.probes(r.I, h):
                for i2, v2, m2 in integ.probes(r.I, w):
                    v = T.canon(mget(r.I, o, i1, i2))
                    put(res, ("m", side_of(v1), side_of(v2)), (v1, v2), split_state(r, r.I.norm(v), wh), nm)
    return res


def put(res, k, vs, v, nm):
    if k in res:
        raise Unsupported("two blocks of the same sides")
    res[k] = (vs, T.canon(v), nm)


def rename_positions(vs, ws, p):
    """Value p at positions vs, read at positions ws."""
    s = {}
    for a, b in zip(vs, ws):
        if len(a) != len(b):
            raise Unsupported("block structure")
        for x, y in zip(a, b):
            s[x] = P(y)
    return subst(p, s)


def swap_block(vs, p, ws, wh):
    """The value with the sides exchanged, read at the positions of the opposite block."""
    for a, b in zip(vs, ws):
        if len(a) != len(b):
            raise Unsupported("block structure")
        for x, y in zip(a, b):
            if T.canon(swap(P(x.args[1]), wh)) != T.canon(P(y.args[1])):
                raise Unsupported("ranges of opposite blocks")
    q = swap(p, wh)
    return subst(q, {swap(P(x), wh).single(): P(y) for a, b in zip(vs, ws) for x, y in zip(a, b)})
