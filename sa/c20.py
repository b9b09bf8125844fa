"""C20: global matrices put test functions in rows and trial functions in columns.

The assembly loops are walked symbolically, helpers included. Which space, element and side each list of unknowns, element,
transformation and state belongs to is part of its term; where a local matrix or vector meets a global one, they are compared with
those the local one was computed for. The routines that compute local matrices between different spaces are brought to normal form:
the row index numbers the test functions, the column index the trial functions.
"""
import os, sys
from . import eff, formwalk, forms, integ, sides
from . import term as T
from .absint import Unsupported
from .mfemodel import is_vec, mdim, mget
from .eff import Undecided
from .report import main

ENTRY = ("AssembleInterfaceMatrices", "InterfaceAddMult", "InterfaceGetGradient", "AssembleInterfaceMatrixAtPort", "Assemble",
         "Mult", "AddMult", "GetGradient", "AssembleInterfaceVector", "AssembleInterfaceGrad", "AssembleInterfaceMatrix")
SKIP = ("TimeProfiler", "mfem::TimeProfiler", "InputParser")


def adds(prog):
    """Functions of the repository that add local contributions to global ones, directly or through helpers."""
    from . import ir
    names = ("AddSubMatrix", "AddElementVector", "AddSubMatrixRtAP", "AddMultTransposeSubMatrix", "AssembleInterfaceMatrix",
             "AssembleInterfaceVector", "AssembleInterfaceGrad")
    direct, calls = set(), {}
    for f in prog.funcs:
        if not f.get("body"):
            continue
        cs = set()
        for s in ir.stmts(f["body"]):
            for e in ir.stmt_exprs(s):
                if e is None:
                    continue
                for x in ir.walk(e):
                    if x["k"] in ("call", "mcall"):
                        n = (x.get("callee") or "").split("::")[-1]
                        if n in names:
                            direct.add(f["id"])
                        g = prog.callee(x)
                        if g is not None and g.get("body"):
                            cs.add(g["id"])
        calls[f["id"]] = cs
    return direct, calls


TRIAL, TEST = ("el1", "el2"), ("el3", "el4")


def elements(p):
    """The elements whose functions a term counts."""
    out = set()
    for a in T.atoms_in(T.P(p)):
        if a.op == "GetDof" and isinstance(a.args[0], T.Atom) and a.args[0].op == "par":
            out.add(a.args[0].args[0])
    return out


def linked(mo, v):
    """Counting variables that equal v: those a factor d(b - v + ...) sets against it with the opposite coefficient."""
    out = set(v)
    for a, n in mo:
        if a.op != "d":
            continue
        co = {}
        for m, c in T.P(a.args[0]).m.items():
            vs = [x for x, k in m if x.op in ("bv", "fv", "cv", "elemv")]
            if len(vs) == 1 and dict(m)[vs[0]] == 1:
                rest = tuple(x for x in m if x[0] is not vs[0])
                co.setdefault(vs[0], {})[rest] = c
        for x, cx in co.items():
            if x in v:
                mates = [y for y, cy in co.items() if y is not x and cy == {k: -c for k, c in cx.items()}]
                if len(mates) == 1:
                    out.add(mates[0])
    return out


def numbered(mo, v):
    """The elements whose functions are taken at an index that depends on v."""
    out = set()
    v = linked(mo, v)
    for a, n in mo:
        if a.op in ("Shape", "DShape", "VShape") and isinstance(a.args[0], T.Atom) and a.args[0].op == "par":
            if v & set(T.atoms_in(T.P(a.args[2]))):
                out.add(a.args[0].args[0])
    return out


def local(prog, R, e):
    rs = [r for r in forms.runs(prog, R, e) or [] if r.ok]
    for r in rs:
        for nm, o in forms.outputs(r):
            if is_vec(o):
                continue
            try:
                h, w = mdim(r.I, o)
                for i1, v1, m1 in integ.probes(r.I, h):
                    for i2, v2, m2 in integ.probes(r.I, w):
                        p = T.canon(r.I.norm(T.canon(mget(r.I, o, i1, i2))))
                        R.count("obligations")
                        for v, mine, other, what in ((v1, TEST, TRIAL, "row"), (v2, TRIAL, TEST, "column")):
                            gs = [numbered(mo, v) for mo in p.m]
                            if any(g & set(other) and not g & set(mine) for g in gs):
                                R.violation("%s:%s:%s" % (e.cls, e.short, what), forms.where(e.f), "%s: the %s index numbers the functions of %s" % (
                                    nm, what, "the trial element" if what == "row" else "the test element"), e.name)
                for t, other, what in ((h, TRIAL, "rows"), (w, TEST, "columns")):
                    g = elements(t)
                    if g & set(other):
                        R.violation("%s:%s:size:%s" % (e.cls, e.short, what), forms.where(e.f), "%s: the number of %s counts the functions of %s" % (
                            nm, what, "the trial element" if what == "rows" else "the test element"), e.name)
            except Unsupported as ex:
                R.note("undecided: %s: %s" % (e, ex))


def mixed(prog, R):
    units = []
    for cls, ents in sorted(forms.by_class(prog).items()):
        for e in ents:
            els = [q for q in e.f["params"] if "FiniteElement" in q["t"]]
            if len(els) == 4:
                units.append(e)
    R.count("mixed_routines", len(units))
    forms.parallel(prog, R, local, units)


def run(prog, R):
    mixed(prog, R)
    R.rule = __doc__.replace("\n", " ")
    fields = formwalk.paired_fields(prog)
    direct, calls = adds(prog)
    callers = {}
    for k, cs in calls.items():
        for c in cs:
            callers.setdefault(c, set()).add(k)
    todo = []
    for f in prog.funcs:
        if f.get("body") and "Form" in (f.get("cls") or "") and (f["id"] in direct or calls.get(f["id"], set()) & direct):
            todo.append(f)
    byk = {f["id"]: f for f in todo}

    class W(formwalk.FormWalk):
        pass
    W.fields = fields
    seen = {}
    for f in sorted(todo, key=lambda f: f["id"]):
        R.count("routines")
        cls = f.get("cls")

        def inline(g, e, cls=cls, file=f["file"]):
            return (g["file"] == file or g["file"].endswith("etc.hpp")) and (g.get("cls") or "") not in SKIP and g["name"].split("::")[-1] != "DeletePointers"
        try:
            ps = eff.walks(prog, f, cls=cls, inline=inline, limit=int(os.environ.get("SA_LIM", "1200")), W=W)
        except (Undecided, RecursionError) as ex:
            R.note("undecided: %s: %s" % (f["name"], ex))
            R.count("undecided")
            continue
        for p in ps:
            for rule, ok, line, g, msg in p.walk.obl:
                key = (rule, g["id"], line, msg)
                if key not in seen or seen[key] and ok is False:
                    seen[key] = ok
                    if ok is False:
                        R.violation("%s:%s:%s" % (g["name"], rule, msg[:80]), "%s:%d" % (g["file"], line), msg, g["name"])
        if os.environ.get("SA_DBG"):
            print(f["name"], len(ps), sum(len(p.walk.obl) for p in ps), len(seen), sum(1 for p in ps if p.abort))
    for (rule, g, line, msg), ok in sorted(seen.items(), key=lambda x: str(x[0])):
        R.count("obligations" if ok is not None else "obligations_undecided")
        if ok:
            R.sample("%s: %s" % (rule, msg))
        if os.environ.get("SA_DBG") == "2":
            print(rule, ok, line, msg)


if __name__ == "__main__":
    sys.exit(main("C20", run, {"obligations": 30}))
