"""C08: results depend on the arguments and configuration only, not on what outputs or work storage held."""
import sys
from . import term as T
from .term import P, Poly, Atom, ZERO, ONE, atom, subst
from .absint import Unsupported, Obj, Cell, VEC, MAT
from .mfemodel import vbuf, is_vec, is_mat
from . import forms, integ, num
from .report import main


def written_fields(run):
    """Members of the object that the routine changes."""
    I, out = run.I, set()
    for nm, c in run.this.f.items():
        if isinstance(c, Cell):
            if c in I.written:
                out.add(nm)
        elif isinstance(c, Obj):
            cells = [x for x in c.f.values() if isinstance(x, Cell)]
            if any(x in I.written for x in cells):
                out.add(nm)
            b = c.f.get("buf")
            if b is not None:
                v = b.v
                if v in I.written:
                    out.add(nm)
    return out


def root(a):
    """The object or member an atom reads."""
    while a.op in ("old", "undef", "Size", "Height", "Width", "fld", "elem", "NumRows", "NumCols", "nonnull") and a.args \
            and isinstance(a.args[0], Atom):
        if a.op == "fld" and a.args[0].op == "this":
            return a
        a = a.args[0]
    return a


def flagged(atoms, written, outs):
    """{atom: what earlier content it stands for}"""
    r = {}
    for a in atoms:
        if a.op == "stale":
            r[a] = "the point the transformation was left at before the call"
        elif a.op == "undef":
            r[a] = "uninitialised storage"
        elif a.op in ("old", "Size", "Height", "Width", "NumRows", "NumCols", "fld", "nonnull"):
            x = root(a)
            if x.op == "fld" and x.args[0].op == "this" and x.args[1] in written:
                r[a] = "member '%s' as an earlier call left it" % x.args[1]
            elif x in outs and a.op in ("old", "Size", "Height", "Width"):
                r[a] = "the previous %s of the output" % ("content" if a.op == "old" else "size")
    return r


def depends(p, fl, vs, cond):
    """Does the value change with the flagged atoms? True, False or None (not known)."""
    flips = set(fl)
    seen = 0
    base = num.models(cond, [p], 6)
    for m in base:
        m2 = num.Model(m.seed, m.fixed, lambda a: "other" if a in flips or (a.op in ("old", "undef") and any(
            b.op == a.op and b.args[0] is a.args[0] for b in flips)) else "")
        m2.ints = m.ints
        for env in num.assign(vs, m):
            m.steps = m2.steps = 0
            try:
                x, y = m.poly(p, env), m2.poly(p, env)
            except num.Undetermined:
                continue
            seen += 1
            if abs(x - y) > 1e-6 * (1 + abs(x) + abs(y)):
                return True
    return False if seen else None


def check(prog, R, unit):
    cls, ents = unit
    allruns = []
    written = set()
    for e in ents:
        rs = forms.runs(prog, R, e)
        if rs is None:
            continue
        allruns.append((e, rs))
        for r in rs:
            if r.this is not None:
                written |= written_fields(r)
    for e, rs in allruns:
        for r in rs:
            if r.ok:
                try:
                    results(R, e, r, written)
                except Unsupported as ex:
                    R.note("undecided: %s: %s" % (e, ex))
        try:
            decisions(R, e, rs, written)
        except Unsupported as ex:
            R.note("undecided: %s: %s" % (e, ex))


def conds(r):
    return [(k, v) for k, v in r.cond if not (k.op == "d" and v)]


def results(R, e, r, written):
    add = e.short.startswith("Add")
    for nm, o in forms.outputs(r):
        outs = {o.a}
        R.count("outputs")
        for s in forms.sizes(r, o):
            R.count("obligations")
            fl = flagged(T.atoms_in(s), written, set() if add else outs)
            if fl and depends(s, fl, [], conds(r)):
                a = sorted(fl, key=lambda a: a.s)[0]
                R.violation("size:%s:%s:%s" % (e.name, nm, a.s), forms.where(e.f),
                            "the size of %s depends on %s" % (nm, fl[a]), e.name)
        for idx, vs, v in forms.values(r, o):
            R.count("obligations")
            own = None
            if add:
                # the previous content, once, plus something that does not involve it
                b, off = vbuf(r.I, o)
                own = T.canon(r.I.norm(b.base(off + _addr(r, o, idx)))) if callable(b.base) else ZERO
                v = T.canon(v - own)
            fl = flagged(T.atoms_in(v), written, outs)
            if add:
                fl = {a: t for a, t in fl.items() if a.op == "old" or root(a) not in outs}
            if not fl:
                continue
            dp = depends(v, fl, vs, conds(r))
            if dp:
                a = sorted(fl, key=lambda a: a.s)[0]
                R.violation("value:%s:%s:%s" % (e.name, nm, root(a).s), forms.where(e.f),
                            "%s at %s %s %s, e.g. through %s" % (
                                nm, ",".join(map(str, idx)),
                                "is not the previous content plus new terms: it involves" if add and root(a) in outs
                                else "depends on", fl[a], a.s[:120]), e.name)
            elif dp is None:
                R.count("obligations_undecided")
                R.note("undecided: %s %s at %s" % (e, nm, idx))


def _addr(r, o, idx):
    if is_vec(o):
        return idx[0]
    h, w = forms.mdim(r.I, o)
    return idx[0] + T.sz(h) * idx[1]


def decisions(R, e, rs, written):
    """A decision taken on stale state must not change the result."""
    groups = {}
    for r in rs:
        if not r.ok:
            continue
        outs = {o.a for nm, o in forms.outputs(r)}
        st, free = [], []
        for k, v in r.cond:
            fl = flagged({k} | T.atoms_in(P(k)), written, set() if e.short.startswith("Add") else outs)
            if fl:
                st.append((k, v, fl))
            else:
                free.append((k.s, v))
        groups.setdefault(frozenset(free), []).append((r, st))
    for key, xs in groups.items():
        if not any(st for r, st in xs):
            continue
        R.count("decisions_on_earlier_state", sum(bool(st) for r, st in xs))
        for i in range(len(xs)):
            for j in range(i):
                r1, s1 = xs[i]
                r2, s2 = xs[j]
                if not s1 and not s2:
                    continue
                w = unlike(r1, r2)
                if w:
                    k, v, fl = (s1 or s2)[0]
                    a = sorted(fl, key=lambda a: a.s)[0]
                    R.violation("branch:%s:%s" % (e.name, root(a).s), forms.where(e.f),
                                "the branch taken, and with it %s, depends on %s" % (w, fl[a]), e.name)
                    return


def unlike(r1, r2):
    o1, o2 = dict(forms.outputs(r1)), dict(forms.outputs(r2))
    n = lambda p: T.canon(r2.I.norm(r1.I.norm(p)))
    for nm in o1:
        if nm not in o2:
            continue
        for a, b in zip(forms.sizes(r1, o1[nm]), forms.sizes(r2, o2[nm])):
            if n(a) != n(b) and isinstance(num.differ(n(a), n(b), [], conds(r1)), tuple):
                return "the size of " + nm
        for (idx, vs, v1) in forms.values(r1, o1[nm]):
            get = forms.vget if is_vec(o2[nm]) else forms.mget
            v2 = T.canon(get(r2.I, o2[nm], *idx))
            a, b = n(v1), n(v2)
            if a != b and isinstance(num.differ(a, b, vs, conds(r1)), tuple):
                return "%s at %s" % (nm, ",".join(map(str, idx)))
    return None


def run(prog, R):
    R.rule = ("Abstract interpretation of every assembly/evaluation routine into a closed-form normal form of each output "
              "entry; no normal form, size or branch may involve what the output, an uninitialised local or a member "
              "modified by any of the class's routines held before; Add* routines: previous content exactly once.")
    R.assumptions = ["mfem classes behave as documented", "outputs and inputs do not overlap"]
    units = sorted(forms.by_class(prog).items(), key=lambda kv: -len(kv[1]))
    forms.parallel(prog, R, check, units)


if __name__ == "__main__":
    sys.exit(main("C08", run, {"functions_parsed": 100}))
