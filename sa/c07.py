"""C07: every declared boundary has a type and the data that type needs.

Every concrete problem's constructor is walked symbolically (base classes, loops and helpers included); the boundary tables it
leaves are compared with each other, and again after every path of the setters an object of that class reaches. The solvers'
functions that take a problem over are walked with a generic boundary: type, attribute and data used together belong to one index.
"""
import sys
from . import problem, eff
from .c06 import mentions, short
from .eff import show, I, Undecided, NULLT
from .report import main

ZERO, DIRICHLET, NEUMANN = 0, 1, 2
LISTS = ("scalar_bdr_ptr", "vector_bdr_ptr")


def active(prog, cls):
    bs = [cls] + problem.bases(prog, cls)
    if any(b == "PoissonProblem" or b.startswith("AdvDiff") for b in bs):
        return "scalar_bdr_ptr"
    if any(b in ("FlowProblem", "LinElastProblem") for b in bs):
        return "vector_bdr_ptr"
    return None


def tables(prog, R, cls, f, st, when):
    where = "%s:%s" % (f["file"], f["line"])

    def bad(what, msg):
        R.violation("%s:%s" % (cls, what), where, msg + when, f["name"])
    nb, nt = st.size("battr"), st.size("bdr_type")
    if nb is None or nt is None:
        R.note("undecided: %s: number of boundaries" % cls)
        return
    R.count("boundaries", nb)
    R.count("obligations")
    if nb != nt:
        bad("sizes", "%d boundary attributes and %d boundary types" % (nb, nt))
    n = min(nb, nt)
    lst = active(prog, cls)
    nl = st.size(lst) if lst else None
    if lst and nl is None:
        R.note("undecided: %s: size of %s" % (cls, lst))
    if nl is not None and nl != nb:
        bad("data:" + lst, "%d boundary attributes and %d boundary functions" % (nb, nl))
    for l in LISTS:
        if l != lst and st.size(l) not in (None, 1, nb):
            bad("data:" + l, "%d boundary attributes and %d entries of %s" % (nb, st.size(l), l))
    seen = {}
    for i in range(n):
        R.count("obligations", 4)
        b, t = st.at("battr", i), st.at("bdr_type", i)
        if b is None:
            bad("attribute:%d" % i, "boundary %d never gets an attribute" % i)
        elif b[0] == "int":
            if b[1] < 1 and not (b[1] == -1 and nb == 1):
                bad("attribute:%d" % i, "boundary %d has attribute %d" % (i, b[1]))
            if b[1] in seen:
                bad("duplicate:%d" % b[1], "boundaries %d and %d have the same attribute %d" % (seen[b[1]], i, b[1]))
            seen.setdefault(b[1], i)
        if t is None:
            bad("type:%d" % i, "boundary %d never gets a type" % i)
            continue
        if t[0] != "int":
            R.note("undecided: %s: type of boundary %d: %s" % (cls, i, show(t)))
            continue
        if t[1] not in (ZERO, DIRICHLET, NEUMANN):
            bad("type:%d" % i, "boundary %d has type %d, which is not one" % (i, t[1]))
        if nl is None or i >= nl:
            continue
        d = st.at(lst, i)
        if d is None:
            bad("unset:%d" % i, "boundary %d: entry of %s never set" % (i, lst))
        elif t[1] == DIRICHLET and d == NULLT:
            bad("missing:%d" % i, "boundary %d has prescribed values but no function in %s" % (i, lst))


def overruns(R, cls, f, p):
    for e in problem.overruns(p):
        if e.recv[1][0] == "fld":
            R.violation("%s:overrun:%s" % (cls, show(e.recv)), e.where(), "%s is written, past its end" % show(e.recv), f["name"])


def parts(e):
    for a in e.args:
        yield a
    if e.kind == "write":
        yield e.recv


def uses(t, field, out):
    """Indices at which a table of the problem is read inside a term."""
    if isinstance(t, tuple):
        if len(t) == 3 and t[0] == "idx" and t[1][0] == "fld" and t[1][2] == field and t[1][1][0] == "par":
            out.append(t[2])
        for x in t:
            uses(x, field, out)
    return out


def solver(prog, R, g):
    try:
        ps = eff.walks(prog, g, inline=lambda h, e: problem.inline(h, e) and not h["name"].split("::")[-1].startswith("Add"), limit=600)
    except Undecided as ex:
        R.note("undecided: %s: %s" % (g["name"], ex))
        return

    def bad(what, msg, line=None):
        R.violation("%s:%s" % (g["name"], what), "%s:%s" % (g["file"], line or g["line"]), msg, g["name"])
    R.count("solver_paths", len(ps))
    for p in ps:
        if p.abort:
            continue
        adds = []
        for e in p.events:
            if e.kind == "call" and e.short == "AddBCFunction":
                at = [i for a in e.args for i in uses(a, "battr", [])]
                fn = [i for a in e.args for l in LISTS for i in uses(a, l, [])]
                R.count("obligations")
                if at and fn and any(i != j for i in at for j in fn):
                    bad("pairing", "data of boundary %s are registered for the attribute of boundary %s" % (show(fn[0]), show(at[0])), e.line)
                adds.append((at, fn))
            elif e.kind == "write" and e.recv[0] == "idx" and e.recv[1] == ("fld", ("this",), "bdr_type"):
                R.count("obligations")
                for i in uses(e.args[0], "bdr_type", []):
                    # global boundary b takes the type found under its own attribute
                    if i[0] == "call" and short(i) == "Find" and len(i) == 4:
                        w = ("idx", ("fld", ("this",), "global_bdr_attributes"), e.recv[2])
                        c = i[2]
                        if i[3] != w and i[3][0] == "idx" or c[0] == "fld" and c[2] != "battr":
                            bad("type", "boundary %s takes the type of %s" % (show(e.recv[2]), show(i)), e.line)
                    elif i == e.recv[2]:
                        bad("type", "boundary %s of the domain takes the type of entry %s of the problem" % (show(e.recv[2]), show(i)), e.line)
        # a boundary whose type is prescribed values gets its function
        for t, v in p.used:
            if v and t[0] == "==" and I(DIRICHLET) in t[1:]:
                x = [y for y in t[1:] if y != I(DIRICHLET)]
                i = uses(x[0], "bdr_type", []) if x else []
                if len(i) == 1 and x[0][0] == "idx":
                    R.count("obligations")
                    if not any(i[0] in fn for at, fn in adds) and not refused(p, i[0]):
                        bad("dropped", "the function of a boundary with prescribed values is not registered")


def refused(p, i):
    """The path has established there is no function for this boundary."""
    return any(not v and any(uses(t, l, []) == [i] for l in LISTS) for t, v in p.used)


def run(prog, R):
    R.rule = __doc__.replace("\n", " ")
    for cls, f in problem.problems(prog):
        R.count("problems")
        try:
            ps = problem.built(prog, cls, f)
        except Undecided as ex:
            R.note("undecided: %s: %s" % (cls, ex))
            continue
        for p in ps:
            if not p.abort:
                R.count("constructor_paths")
                tables(prog, R, cls, f, p.state, "")
                inner(prog, R, cls, f, p.state, "")
            overruns(R, cls, f, p)
        for g in problem.setters(prog, cls):
            try:
                ps = problem.setter_paths(prog, cls, f, g)
            except Undecided as ex:
                R.note("undecided: %s of %s: %s" % (g["name"], cls, ex))
                continue
            for p in ps:
                if not p.abort:
                    R.count("setter_paths")
                    tables(prog, R, cls, g, p.state, " after a parameter was set")
                    inner(prog, R, cls, g, p.state, " after a parameter was set")
                overruns(R, cls, g, p)
    for fs in list(prog.by_name.items()):
        if fs[0].endswith("::SetParameterizedProblem"):
            for g in fs[1]:
                if g.get("body"):
                    R.count("solvers")
                    solver(prog, R, g)


def inner(prog, R, cls, f, st, when):
    """Problems kept inside this one."""
    for k in list(st.w.kidsof.get(problem.THIS, ())):
        if k[0] == "fld" and k[1] == problem.THIS and k in st.w.store:
            v = st.w.store[k]
            t = st.w.types.get(v)
            if t and t != cls and problem.BASE in problem.bases(prog, t):
                R.count("inner_problems")
                tables(prog, R, t, f, problem.State(st.w, v), when + " (inside %s)" % cls)


if __name__ == "__main__":
    sys.exit(main("C07", run, {"functions_parsed": 100}))
