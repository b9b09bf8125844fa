"""Normal forms of the assembly and evaluation routines, and a driver that analyses them in parallel."""
import multiprocessing, os, sys, time
from . import term as T
from .term import P, Poly, Atom, ZERO, ONE, atom, subst
from .absint import Unsupported, Obj, Cell, Ptr, SymPtr, VEC, MAT
from .mfemodel import vsize, mdim, vget, mget, vbuf, is_mat, is_vec
from . import integ, num


def outputs(run):
    """[(name, object)] of everything the routine is asked to fill."""
    out = []
    for nm, o in run.outs.items():
        if isinstance(o, Obj) and (is_vec(o) or is_mat(o)):
            out.append((nm, o))
        elif isinstance(o, Obj):
            for k in sorted((k for k in o.f if isinstance(k, tuple) and k[0] == "el"), key=str):
                c = o.f[k]
                v = c.v if isinstance(c, Cell) else c
                if isinstance(v, (Ptr, SymPtr)):
                    v = run.I.deref(v)
                if isinstance(v, Obj) and is_mat(v):
                    out.append((nm + str(tuple(k[1:])), v))
    return out


def sizes(run, o):
    return [vsize(run.I, o)] if is_vec(o) else list(mdim(run.I, o))


def values(run, o):
    """[(position text, free index variables, value)], covering every entry."""
    I = run.I
    if is_vec(o):
        for idx, vs, mo in integ.probes(I, vsize(I, o)):
            yield (idx,), vs, T.canon(vget(I, o, idx))
    else:
        h, w = mdim(I, o)
        for i1, v1, m1 in integ.probes(I, h):
            for i2, v2, m2 in integ.probes(I, w):
                yield (i1, i2), v1 + v2, T.canon(mget(I, o, i1, i2))


def where(f):
    return "%s:%s" % (f["file"].split("/repo/")[-1], f["line"])


class Sub:
    """What one worker reports; same interface as report.Report."""
    def __init__(self):
        self.calls = []

    def __getattr__(self, k):
        if k in ("count", "sample", "violation", "note"):
            return lambda *a, **kw: self.calls.append((k, a, kw))
        raise AttributeError(k)


_work = None


def _job(i):
    P_, fn, units, limit = _work
    R = Sub()
    t0 = time.time()
    try:
        fn(P_, R, units[i])
    except Unsupported as ex:
        R.note("undecided: %s" % ex)
    except RecursionError:
        R.note("undecided: recursion in %s" % (units[i],))
    except Exception as ex:      # an analysis that breaks down decides nothing
        import traceback
        tb = traceback.extract_tb(sys.exc_info()[2])[-1]
        R.count("analyses_broken_down")
        R.note("undecided: %s at %s:%d in %s" % (ex.__class__.__name__, tb.filename.split("/")[-1], tb.lineno, units[i]))
    return i, R.calls, time.time() - t0


def parallel(P_, R, fn, units, limit=240):
    """fn(P, R, unit) for every unit, each in a process of its own; a unit that takes too long is left undecided."""
    global _work
    _work = (P_, fn, units, limit)
    ctx = multiprocessing.get_context("fork")
    res = {}
    with ctx.Pool(min(8, os.cpu_count() or 4), maxtasksperchild=1) as pool:
        hs = [(i, pool.apply_async(_job, (i,))) for i in range(len(units))]
        end = time.time() + limit
        for i, h in hs:
            try:
                _, calls, dt = h.get(timeout=max(1, end - time.time()))
                res[i] = calls
            except multiprocessing.TimeoutError:
                res[i] = [("note", ("undecided: time limit in %s" % (units[i],),), {})]
        pool.terminate()
    for i in sorted(res):
        for k, a, kw in res[i]:
            getattr(R, k)(*a, **kw)


def by_class(prog):
    """{class: [Entry]} of the analysed routines, biggest first."""
    d = {}
    for e in integ.entries(prog):
        d.setdefault(e.cls, []).append(e)
    return d


def runs(prog, R, entry):
    """The configurations of one routine, or None when it is left undecided."""
    try:
        rs = integ.run_entry(prog, entry)
    except Unsupported as ex:
        R.count("routines_undecided")
        R.note("undecided: %s: %s" % (entry, ex))
        return None
    if not any(r.ok for r in rs):
        R.count("routines_that_only_abort")
        return None
    R.count("routines_analysed")
    R.count("configurations", sum(r.ok for r in rs))
    return rs
