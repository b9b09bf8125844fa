"""C11: the full, point-wise and precomputed routines of a term add the same terms.

The normal form of the full routine is a sum over the points of a rule.  Its summand, with the rule's point and
weight replaced by the point and weight given, must be the normal form of the point-wise routine; and that, with
the basis expansion put in, the normal form of the precomputed ("fast") routine.
"""
import re
import sys
from . import term as T
from .term import P, Poly, Atom, ZERO, ONE, atom, subst
from .absint import Unsupported, Obj, ty
from .mfemodel import is_vec, is_mat, vsize, mdim, vget, mget
from . import forms, num
from .report import main

IP, IW = atom("par", "ip1"), atom("par", "iw1")
DIM = atom("GetDim")


class Unmatched(Exception):
    def __init__(self, msg, p):
        self.msg, self.p = msg, p


def kind(e):
    """(vector or gradient, element/face/interface) of a routine, or None"""
    m = re.match(r"Assemble(Element|Face|Interface|Quadrature)(Vector|Grad)$|AddAssemble(Vector|Grad)_Fast$", e.short)
    if not m:
        return None
    what = "vector" if (m.group(2) or m.group(3)) == "Vector" else "grad"
    trs = [p for p, nm, o in e.par if nm.startswith("tr")]
    where = "interface" if len(trs) == 2 else "face" if any("FaceElement" in p["t"] for p in trs) else "element"
    how = "fast" if m.group(3) else "point" if m.group(1) == "Quadrature" else "full"
    return what, where, how


def summand(p):
    """The terms added at one point: ip(rule, b) -> the given point, its weight -> the given weight."""
    r = ZERO
    for mo, c in p.m.items():
        ips = {a for a in T.atoms_in(Poly({mo: 1})) if a.op == "ip"}
        if len(ips) != 1:
            raise Unmatched("a term is not evaluated at exactly one point of the rule", Poly({mo: c}))
        ip = next(iter(ips))
        b = ip.args[1].single() if isinstance(ip.args[1], Poly) else None
        if b is None or b.op != "bv":
            raise Unmatched("a term is not summed over the points of the rule", Poly({mo: c}))
        wt = atom("wt", ip)
        fs, seen = [], 0
        for a, e in mo:
            if a is wt:
                seen = e
            else:
                fs.append((a, e))
        if seen != 1:
            raise Unmatched("a term does not carry the point's weight exactly once", Poly({mo: c}))
        q = Poly({tuple(sorted(fs + [(IW, 1)], key=lambda kv: kv[0].uid)): c})
        q = rename_atom(q, ip, IP)
        if b in q.bvs:
            raise Unmatched("a term uses the number of the point otherwise than to evaluate there", Poly({mo: c}))
        r = r + q
    return r


def rename_atom(p, x, y):
    return T.replace(p, lambda a: y if a is x else None)


def rename_atoms(p, d):
    return T.replace(p, lambda a: d.get(a)) if d else p


def agree(r1, r2):
    d = dict(r2.cond)
    return all(d.get(k, v) == v for k, v in r1.cond)


def union(r1, r2):
    d = {}
    for k, v in list(r1.cond) + list(r2.cond):
        if not (k.op == "d" and v):
            d[k] = v
    return list(d.items())


def both(r1, r2, p):
    for _ in range(2):
        p = r2.I.norm(r1.I.norm(p))
    return T.canon(T.simplify(p))


def compare(R, key, e1, e2, r1, r2, pos, vs, a, b, what):
    R.count("obligations")
    a, b = both(r1, r2, a), both(r1, r2, b)
    if T.canon(a - b) == ZERO:
        R.count("obligations_equal_by_normal_form")
        return
    w = num.differ(a, b, vs, union(r1, r2))
    if isinstance(w, tuple):
        d = T.canon(a - b)
        ex = "; ".join(str(Poly({m: c}))[:160] for m, c in list(d.m.items())[:2])
        R.violation(key, forms.where(e2.f), "%s and %s differ in %s when [%s]: difference %s" % (
            e1.name.split("::")[-1] + str(e1.sig), e2.name.split("::")[-1] + str(e2.sig), what,
            ", ".join(("" if v else "not ") + k.s[:60] for k, v in union(r1, r2)), ex), e2.name)
    elif w is None:
        R.count("obligations_equal_under_all_interpretations_tried")
    else:
        R.count("obligations_undecided")
        R.note("undecided: %s vs %s in %s" % (e1, e2, what))


def check(prog, R, unit):
    cls, ents = unit
    groups = {}
    for e in ents:
        k = kind(e)
        if k:
            groups.setdefault(k[:2], {})[k[2]] = e
    for (what, wh), d in sorted(groups.items()):
        if "point" not in d:
            continue
        rq = forms.runs(prog, R, d["point"])
        if not rq:
            continue
        for other in ("full", "fast"):
            if other not in d:
                continue
            ro = forms.runs(prog, R, d[other])
            if not ro:
                continue
            R.count("pairs")
            R.sample("%s %s %s: %s against point-wise" % (cls, wh, what, other))
            for r1 in ro:
                for r2 in rq:
                    if r1.ok and r2.ok:
                        try:
                            if other == "full":
                                full(R, d["full"], d["point"], r1, r2, what, wh)
                            else:
                                fast(R, d["fast"], d["point"], r1, r2, what, wh)
                        except Unsupported as ex:
                            R.note("undecided: %s: %s" % (d[other], ex))


def full(R, e1, e2, r1, r2, what, wh):
    # decisions of the point-wise routine, seen from the full one
    if not agree(r1, r2):
        return
    R.count("configuration_pairs")
    o1, o2 = dict(forms.outputs(r1)), dict(forms.outputs(r2))
    for nm in o1:
        if nm not in o2:
            continue
        key = "full:%s:%s:%s" % (e2.cls, what, wh)
        for x, y in zip(forms.sizes(r1, o1[nm]), forms.sizes(r2, o2[nm])):
            R.count("obligations")
            x, y = both(r1, r2, x), both(r1, r2, y)
            if x != y and isinstance(num.differ(x, y, [], union(r1, r2)), tuple):
                R.violation(key + ":size", forms.where(e2.f), "the sizes of %s differ: %s in %s, %s in %s" % (
                    nm, x, e1, y, e2), e2.name)
                return
        for idx, vs, v in forms.values(r1, o1[nm]):
            w = get(r2, o2[nm], idx)
            try:
                s = summand(v)
            except Unmatched as ex:
                # only what really contributes counts
                if isinstance(num.differ(ex.p, ZERO, vs, union(r1, r1)), tuple):
                    R.violation(key + ":sum", forms.where(e1.f), "%s of %s at %s: %s" % (
                        ex.msg, nm, ",".join(map(str, idx)), str(ex.p)[:200]), e1.name)
                continue
            compare(R, key, e1, e2, r1, r2, idx, vs, s, w, "%s at %s" % (nm, ",".join(map(str, idx))))


def get(r, o, idx):
    return T.canon(vget(r.I, o, idx[0]) if is_vec(o) else mget(r.I, o, *idx))


# ------------------------------------------------------------ precomputed basis values

def nb(i):
    return atom("posint", "NB%d" % i)


def unify(r, wh):
    """Sizes of the fast routine in terms of the dimension and the number of basis functions."""
    I = r.I
    eq = atom("par", "eqp1")
    d = {}
    for i in (1, 2):
        s = atom("fld", eq, "shape%d" % i)
        g = atom("fld", eq, "dshape%d" % i)
        k = nb(i if wh == "interface" else 1)
        d[atom("Height", s)] = P(DIM)
        d[atom("NumRows", s)] = P(DIM)
        d[atom("Width", s)] = P(k)
        d[atom("NumCols", s)] = P(k)
        d[atom("Size", g)] = P(k)
        for z in ("Height", "Width"):
            d[atom(z, atom("elem", g))] = P(DIM)
        d[atom("Size", atom("par", "vec%d" % i))] = P(k)
        d[atom("Size", atom("par", "outvec%d" % i))] = P(k)
    d[atom("Height", atom("par", "outmat1"))] = d[atom("Width", atom("par", "outmat1"))] = P(nb(1))
    for i in (0, 1):
        for j in (0, 1):
            m = atom("elem", atom("par", "outmats1"), P(i), P(j))
            d[atom("Height", m)] = P(nb(i + 1))
            d[atom("Width", m)] = P(nb(j + 1))
    # decisions taken on these sizes
    dec = {}
    for k, v in r.cond:
        if k.op == "d":
            q = T.dlt(subst(k.args[0], d))
            q = P(q) if isinstance(q, Atom) else q
            c = q.const()
            if c is not None:
                if bool(c) != v:
                    return None, None
            elif q.single() is not None and q.single() is not k:
                dec[q.single()] = v
    return d, dec


def unify_point(r, d, dec):
    """The decisions of the fast routine in the terms of the point-wise one."""
    for k, v in r.cond:
        if dec.get(k, v) != v:
            return False
    return True


def expand(p, wh, point):
    """Put the basis expansion in: shape functions times state become precomputed basis values times reduced state."""
    eq = atom("par", "eqp1")

    def side(el):
        return 2 if el.s.endswith("el2)") else 1

    def S(i, c, k):
        return P(atom("old", atom("fld", eq, "shape%d" % i), T.sz(P(DIM)) * P(k) + c))

    def G(i, k, c, e):
        return P(atom("old", atom("elem", atom("fld", eq, "dshape%d" % i), P(k)), T.sz(P(DIM)) * e + c))

    def mono(mo, co):
        fs = [[a, e] for a, e in mo]
        add = ONE
        # closed arguments first
        for f in fs:
            if f[0].op in T.CLOSING or f[0].op in ("ge", "d"):
                f[0] = closing(f[0])
        flat = []
        for a, e in fs:
            if isinstance(a, Poly):
                add = T._rawmul(add, T.power_raw(a, e))
            elif e > 1 and a.op in ("Shape", "DShape", "old"):
                flat += [a] * e
            else:
                flat.append((a, e))
        flat = [x if isinstance(x, tuple) else (x, 1) for x in flat]
        used = set()
        for i, (a, e) in enumerate(flat):
            if i in used or a.op not in ("Shape", "DShape") or e != 1:
                continue
            el, idx = a.args[0], a.args[2]
            j = idx.single()
            if j is None or j.op not in ("bv",):
                continue
            n = side(el)
            # the state entry it multiplies
            for m, (b, e2) in enumerate(flat):
                if m in used or b.op != "old" or e2 != 1 or b.args[0].op != "par" or j not in b.bvs:
                    continue
                v = b.args[0].args[0]
                c = component(b.args[1], j, el, wh, v)
                if c is None:
                    raise Unsupported("state entry " + b.s)
                k = T.fresh_bv(P(nb(n if wh == "interface" else 1)))
                xr = P(atom("old", b.args[0], P(k)))
                used |= {i, m}
                add = T._rawmul(add, xr)
                if a.op == "Shape":
                    add = T._rawmul(add, S(n, c, k))
                else:
                    q, e_ = grad_dir(flat, used, a)
                    used.add(q)
                    add = T._rawmul(add, G(n, k, c, e_))
                break
            else:
                raise Unsupported("shape function without state")
        rest = Poly({tuple(sorted(merge([x for i, x in enumerate(flat) if i not in used]), key=lambda kv: kv[0].uid)): co})
        return T._rawmul(rest, add)

    def grad_dir(flat, used, a):
        f = a.args[3].single()
        for q, (b, e) in enumerate(flat):
            if q not in used and b.op == "InvJ" and e == 1 and f is not None and b.args[2].single() is f:
                return q, b.args[3]
        raise Unsupported("reference gradient")

    def closing(a):
        na = []
        for x in a.args:
            if isinstance(x, Poly):
                if a.op in ("ge", "d"):
                    # arguments of comparisons have no sums of their own here
                    y = ZERO
                    for mo, c in x.m.items():
                        y = y + mono(mo, c)
                    na.append(y)
                else:
                    outer = {v: P(T.fresh_fv(v.args[1], "o")) for v in x.bvs}
                    y = T.open_poly(subst(x, outer) if outer else x)
                    z = ZERO
                    for mo, c in y.m.items():
                        z = z + mono(mo, c)
                    z = T.close_poly(T.simplify(z))
                    na.append(subst(z, {q.single(): P(v) for v, q in outer.items()}) if outer else z)
            else:
                na.append(x)
        return T.rebuild(a.op, na)

    def component(A, j, el, wh, v):
        """A = j + ndof*c (+ offset of the second element): c"""
        r = A - P(j)
        if j in r.bvs:
            return None
        if wh == "face" and side(el) == 2:
            off = P(DIM) * P(atom("GetDof", atom("par", "el1")))
            for cand in (r - off, r - point.I.norm(off)):
                c = T_div(cand, atom("GetDof", el))
                if c is not None:
                    return c
            return None
        return T_div(r, atom("GetDof", el))

    r = ZERO
    for mo, c in p.m.items():
        r = r + mono(mo, c)
    return r


def merge(xs):
    d = {}
    for a, e in xs:
        d[a] = d.get(a, 0) + e
    return [(a, e) for a, e in d.items() if e]


def T_div(p, n):
    """p / n for a polynomial every term of which contains n"""
    r = {}
    for mo, c in p.m.items():
        d = dict(mo)
        if d.get(n, 0) < 1:
            return None
        d[n] -= 1
        if not d[n]:
            del d[n]
        r[tuple(sorted(d.items(), key=lambda kv: kv[0].uid))] = c
    return Poly(r)


def project(v, wh, idxs, el_of, kf):
    """Test (and trial) function values at free positions become basis values, summed over components.
    idxs: [(dof variable, component poly, element side, basis index variable)]"""
    eq = atom("par", "eqp1")
    r = ZERO
    for mo, c in v.m.items():
        fs = list(mo)
        t = Poly({(): c})
        used = set()
        for (dv, comp, sd, k) in idxs:
            hit = None
            for i, (a, e) in enumerate(fs):
                if i not in used and a.op in ("Shape", "DShape") and e == 1 and a.args[2].single() is dv:
                    hit = i
                    break
            if hit is None:
                raise Unsupported("entry without test or trial function")
            a = fs[hit][0]
            used.add(hit)
            if a.op == "Shape":
                t = T._rawmul(t, P(atom("old", atom("fld", eq, "shape%d" % sd), T.sz(P(DIM)) * P(k) + comp)))
            else:
                f = a.args[3].single()
                for q, (b, e) in enumerate(fs):
                    if q not in used and b.op == "InvJ" and e == 1 and f is not None and b.args[2].single() is f:
                        used.add(q)
                        t = T._rawmul(t, P(atom("old", atom("elem", atom("fld", eq, "dshape%d" % sd), P(k)),
                                                T.sz(P(DIM)) * b.args[3] + comp)))
                        break
                else:
                    raise Unsupported("reference gradient")
        rest = Poly({tuple(x for i, x in enumerate(fs) if i not in used): 1})
        t = T._rawmul(t, rest)
        if any(dv in T.atoms_in(t) for dv, _, _, _ in idxs):
            raise Unsupported("entry index used twice")
        r = r + t
    return r


def fast(R, e1, e2, r1, r2, what, wh):
    d, dec = unify(r1, wh)
    if d is None:
        return
    eq = atom("par", "eqp1")
    info = atom("fld", eq, "info")
    one = {}

    def loc(a):
        if a.op == "ip" and isinstance(a.args[1], Poly) and a.args[1].single() is atom("fld", info, "qp"):
            return IP
        if a is atom("fld", info, "qw"):
            return P(IW)
        return None
    f1 = lambda p: T.canon(T.strip_unit_vars(r2.I.norm(T.replace(subst(p, d), loc))))
    # same configuration: decisions of both in the same terms
    r2dec = dict(r2.cond)
    for k, v in r1.cond:
        if k.op == "d":
            # sizes: compare the decisions themselves, not what either routine made of them
            q = T.dlt(subst(k.args[0], d))
            q = P(q) if isinstance(q, Atom) else q
            c, s = q.const(), q.single()
            if c is not None:
                if bool(c) != v:
                    return
            elif s is not None:
                w = r2dec.get(s)
                if w is not None and w != v:
                    return
                if not v and w is None:
                    one[s] = v
            continue
        k2 = f1(P(k)) if k.op in ("nonnull", "ge", "bool", "d") else P(k)
        c = k2.const()
        if c is not None:
            if bool(c) != v:
                return
            continue
        s = k2.single()
        if s is not None:
            one[s] = v
    for k, v in r2.cond:
        # expansion inside comparisons
        if k.op == "ge":
            try:
                q = T.canon(T.strip_unit_vars(r2.I.norm(expand(P(k), wh, r2))))
            except Unsupported:
                q = P(k)
            s = q.single()
            if s is not None:
                if s in one and one[s] != v:
                    return
                one[s] = v
                continue
        if k in one and one[k] != v:
            return
    R.count("configuration_pairs")
    key = "fast:%s:%s:%s" % (e1.cls, what, wh)
    o1, o2 = dict(forms.outputs(r1)), dict(forms.outputs(r2))
    cond = [(k, v) for k, v in one.items() if not (k.op == "d" and v)] + [
        (k, v) for k, v in r2.cond if k.op in ("nonnull", "bool") or k.op == "d" and not v]
    sub = {k: (ONE if v else ZERO) for k, v in one.items()}
    norm = lambda p: T.canon(T.simplify(subst(T.strip_unit_vars(r2.I.norm(subst(p, sub))), sub)))
    for nm, o in o1.items():
        # the reduced outputs sum over all blocks of the full ones
        K = [T.fresh_fv(P(nb(1)), "k"), T.fresh_fv(P(nb(1)), "l")]
        m = re.search(r"\((\d), (\d)\)$", nm)
        if is_vec(o):
            n = int(nm[-1])
            K = [T.fresh_fv(P(nb(n)), "k")]
            got = vget(r1.I, o, P(K[0])) - P(atom("old", o.a, P(K[0])))
        else:
            if m:
                K = [T.fresh_fv(P(nb(int(m.group(1)) + 1)), "k"), T.fresh_fv(P(nb(int(m.group(2)) + 1)), "l")]
            got = mget(r1.I, o, P(K[0]), P(K[1]))
            h = mdim(r1.I, o)[0]
            got = got - P(atom("old", o.a, P(K[0]) + T.sz(h) * P(K[1])))
        got = f1(T.canon(got))
        want = ZERO
        if nm not in o2:
            continue
        p = o2[nm]
        for idx, vs, v in forms.values(r2, p):
            want = want + blockterm(r2, v, idx, vs, wh, K, m)
        a, b = norm(got), norm(want)
        R.count("obligations")
        if T.canon(a - b) == ZERO:
            R.count("obligations_equal_by_normal_form")
            continue
        w = num.differ(a, b, K, cond)
        if isinstance(w, tuple):
            dd = T.canon(a - b)
            ex = "; ".join(str(Poly({q: c}))[:160] for q, c in list(dd.m.items())[:2])
            R.violation(key, forms.where(e1.f), "%s differs from the point-wise routine with the basis put in, in %s "
                        "when [%s]: difference %s" % (e1, nm, r2.label()[:200], ex), e1.name)
        elif w is None:
            R.count("obligations_equal_under_all_interpretations_tried")
        else:
            R.count("obligations_undecided")
            R.note("undecided: %s in %s" % (e1, nm))


def blockterm(r2, v, idx, vs, wh, K, m):
    """The contribution of one block of entries of the point-wise routine to the reduced entry."""
    idxs = []
    for q, ix in enumerate(idx):
        x = r2.I.norm(ix)
        dofs = [f for f in vs if f in T.atoms_in(x) and "GetDof" in repr(f.args[1])]
        if len(dofs) != 1:
            raise Unsupported("block structure")
        dv = dofs[0]
        mm = re.search(r"GetDof\(par\((el\d)\)\)", repr(dv.args[1]))
        el = atom("par", mm.group(1))
        sd = int(mm.group(1)[-1])
        r = x - P(dv)
        if wh == "face" and sd == 2:
            r = r - r2.I.norm(P(DIM) * P(atom("GetDof", atom("par", "el1"))))
        comp = T_div(r, atom("GetDof", el)) if r != ZERO else ZERO
        if comp is None:
            raise Unsupported("block structure")
        idxs.append((dv, comp, sd, K[q]))
    e = expand(v, wh, r2)
    e = project(e, wh, idxs, None, None)
    # sum over the components
    comps = [f for f in vs if "GetDof" not in repr(f.args[1])]
    return subst(e, {f: P(T.fresh_bv(f.args[1])) for f in comps})


def run(prog, R):
    R.rule = ("Normal forms by abstract interpretation: summand of the full routine = point-wise routine; point-wise "
              "routine with the basis expansion substituted = precomputed routine; for vectors and gradients, on every "
              "pair of compatible configurations. A difference of normal forms is reported when an interpretation of the "
              "uninterpreted terms separates them.")
    units = sorted(forms.by_class(prog).items(), key=lambda kv: -len(kv[1]))
    forms.parallel(prog, R, check, units)


if __name__ == "__main__":
    sys.exit(main("C11", run, {"functions_parsed": 100}))
