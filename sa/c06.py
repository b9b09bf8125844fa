"""C06: problem parameters bind one-to-one by name and by index.

Every concrete problem's constructor is walked symbolically (base classes, loops and helpers included); the name-to-index map
and the index-to-storage table it leaves behind are compared with the declared parameter count and with each other; the setters
an object of that class reaches by virtual dispatch are walked from that state.
"""
import sys
from . import problem, eff
from .eff import show, I, Undecided
from .report import main

IDX = {0: ("0", "x", "u"), 1: ("1", "y", "v"), 2: ("2", "z", "w")}


def text(t):
    """A name computed from known parts."""
    if t[0] == "str":
        return t[1]
    if t[0] == "int":
        return str(t[1])
    if t[0] == "call" and (short(t).startswith("operator+") or short(t) in ("to_string", "basic_string", "string")):
        ps = [text(x) for x in t[2:] if x is not None and x != ()]
        if all(p is not None for p in ps):
            return "".join(ps)
    return None


def plain(s):
    return s.replace("_", "").lower()


def canonical(a):
    """Names under which a storage location would be expected, None when it has no telling name."""
    ix = []
    while a[0] == "idx":
        ix = list(a[2:]) + ix
        a = a[1]
    if a[0] not in ("glob", "fld"):
        return None
    base = plain(a[1].split("::")[-1] if a[0] == "glob" else a[2])
    if not all(i[0] == "int" for i in ix):
        return None
    ix = [i[1] for i in ix]
    if not ix:
        return {base}
    if len(ix) == 1:
        return {base + s for s in IDX.get(ix[0], (str(ix[0]),))}
    if len(ix) == 2:        # the first index goes with the coordinate, the second with the component
        x, u = IDX.get(ix[0], (str(ix[0]),)), IDX.get(ix[1], (str(ix[1]),))
        return {base + str(ix[0]) + str(ix[1])} | ({base + u[2] + x[1]} if len(x) > 1 and len(u) > 1 else set())
    return None


def space(a):
    while a[0] in ("idx",):
        a = a[1]
    return a[1].rsplit("::", 1)[0] if a[0] == "glob" and "::" in a[1] else None


def initial(prog, a):
    """Size a global array starts with."""
    e = (prog.globals.get(a[1]) or {}).get("init") if a[0] == "glob" else None
    if not e or e.get("k") != "ctor" or e.get("cls") not in ("mfem::Vector", "mfem::DenseMatrix"):
        return None
    v = [x["v"] for x in e["a"] if x["k"] == "int"]
    if len(v) != len(e["a"]):
        return None
    if e["cls"] == "mfem::Vector":
        return I(v[0] if v else 0)
    return ("pair", I(v[0]), I(v[-1])) if v else ("pair", I(0), I(0))


def moved(prog, R, cls, f, p):
    """Storage that is given up after its address was taken."""
    tab, size, taken = ("fld", ("this",), "param_ptr"), {}, {}
    for e in p.events:
        if e.kind == "write" and e.recv[0] == "idx" and e.recv[1] == tab and e.args[0][0] == "idx":
            taken[e.args[0][1]] = e.args[0]
        elif e.kind == "call" and e.short == "Append" and e.recv == tab and e.args and e.args[0][0] == "idx":
            taken[e.args[0][1]] = e.args[0]
        elif e.kind == "call" and e.short == "SetSize" and e.recv is not None:
            g = e.recv if e.recv[0] == "glob" else getattr(e, "recv_addr", None) or e.recv
            old = size.get(g) or initial(prog, g)
            new = e.args[0] if len(e.args) == 1 else ("pair",) + tuple(e.args)
            if g in taken and old is not None:
                grows = new[0] == "int" and old[0] == "int" and new[1] > old[1] or \
                    new[0] == "pair" == old[0] and all(x[0] == "int" for x in new[1:] + old[1:]) and \
                    new[1][1] * new[2][1] > old[1][1] * old[2][1]
                if grows:
                    R.violation("%s:moved:%s" % (cls, show(g)), e.where(), "%s is resized after the address of %s was taken for a parameter"
                                % (show(g), show(taken[g])), f["name"])
            size[g] = new


def table(prog, R, cls, f, st):
    """The bindings a constructor leaves, checked."""
    where = "%s:%s" % (f["file"], f["line"])

    def bad(what, msg):
        R.violation("%s:%s" % (cls, what), where, msg, f["name"])
    n = st.scalar("param_num")
    if n[0] == "fld":
        bad("count", "the number of parameters is never set")
        n = None
    elif n[0] != "int":
        R.note("undecided: %s: number of parameters %s" % (cls, show(n)))
        return None
    else:
        n = n[1]
    m = st.map("param_map")
    size = st.size("param_ptr")
    names = {}
    for k, v in m.items():
        s = text(k)
        if s is None or v is None or v[0] != "int":
            R.note("undecided: %s: parameter %s" % (cls, show(k)))
            return None
        names[s] = v[1]
    if size is None:
        R.note("undecided: %s: size of the parameter table" % cls)
        return None
    R.count("parameters", len(names))
    if n is not None and n != size:
        bad("size", "%d parameters are declared, %d have storage" % (n, size))
    if n is not None and n != len(names):
        bad("names", "%d parameters are declared, %d have a name" % (n, len(names)))
    by = {}
    for s, i in sorted(names.items()):
        if not 0 <= i < (n if n is not None else size):
            bad("range:" + s, "parameter %s has index %d, beyond the %d declared" % (s, i, n if n is not None else size))
        if i in by:
            bad("index:%d" % i, "parameters %s and %s share index %d" % (by[i], s, i))
        by.setdefault(i, s)
        R.count("obligations", 2)
    store = {}
    where_is = {}
    for i in range(size):
        a = st.at("param_ptr", i)
        R.count("obligations", 3)
        nm = by.get(i, str(i))
        if a is None or a == eff.NULLT:
            bad("unset:%d" % i, "parameter %s (index %d) has no storage" % (nm, i))
            continue
        if i not in by:
            bad("unnamed:%d" % i, "no name designates index %d" % i)
        if a in store:
            bad("shared:%s" % show(a), "parameters %s and %s share the storage %s" % (by.get(store[a], store[a]), nm, show(a)))
        store[a] = i
        where_is[i] = a
        if a[0] == "idx":
            g = st.w.arrsize(a[1]) or initial(prog, a[1])
            if g is not None and g[0] == "int" and len(a) == 3 and a[2][0] == "int" and not 0 <= a[2][1] < g[1]:
                bad("beyond:%s" % show(a), "parameter %s designates %s of an array of %d" % (nm, show(a), g[1]))
            if g is not None and g[0] == "pair" and len(a) == 4 and all(x[0] == "int" for x in g[1:] + a[2:]) and \
                    not all(0 <= x[1] < y[1] for x, y in zip(a[2:], g[1:])):
                bad("beyond:%s" % show(a), "parameter %s designates %s of a %d x %d matrix" % (nm, show(a), g[1][1], g[2][1]))
    # crossed names
    globs = {}
    for q in prog.globals:
        globs.setdefault(plain(q.split("::")[-1]), set()).add(q)
    for i, a in where_is.items():
        if i not in by:
            continue
        s, c = plain(by[i]), canonical(a)
        if c is None or s in c:
            continue
        R.count("names_not_telling")
        other = [t for j, t in by.items() if j != i and plain(t) in c]
        own = [j for j, b in where_is.items() if j != i and s in (canonical(b) or ())]
        free = [q for q in globs.get(s, ()) if space(a) and q.rsplit("::", 1)[0] == space(a)]
        if other or own or free:
            bad("crossed:" + by[i], "parameter %s changes %s%s" % (by[i], show(a), ", which belongs to %s" % other[0] if other else ""))
    return True


def short(t):
    return t[1].split("::")[-1]


def mentions(t, x):
    return t == x or (isinstance(t, tuple) and any(mentions(y, x) for y in t if isinstance(y, tuple)))


def writes(p, st):
    """[(event, index term)] of the values stored through the parameter table."""
    tab = st.f("param_ptr")
    for e in p.events:
        if e.kind == "write" and e.recv[0] == "idx" and e.recv[1] == tab:
            yield e, e.recv[2]


def setter(prog, R, cls, cf, g):
    by_name = "string" in g["params"][0]["t"]
    try:
        ps = problem.setter_paths(prog, cls, cf, g)
    except Undecided as ex:
        R.note("undecided: %s of %s: %s" % (g["name"], cls, ex))
        return

    def bad(what, msg, line=None):
        R.violation("%s:%s" % (g["name"], what), "%s:%s" % (g["file"], line or g["line"]), msg + " (%s)" % cls, g["name"])
    key, value = (("par", q["n"]) for q in g["params"][:2])
    done = False
    for p in ps:
        R.count("setter_paths")
        st = problem.State(p.walk)
        ws = list(writes(p, st))
        m = st.f("param_map")
        if by_name:
            known = None
            for t, v in p.used:
                if mentions(t, key):
                    if t[0] == "call" and short(t) in ("count", "contains"):
                        known = v
                    elif t[0] == "==" or t[0] == "call":
                        known = known if known is not None else "?"
            if known is None and any(mentions(t, key) for t in p.walk.claims):
                known = "?"
            if ws and known is False:
                bad("unknown", "a parameter is set under a name that is not in the map", ws[0][0].line)
            elif ws and known is None:
                bad("unchecked", "a parameter is set without a check that its name is known", ws[0][0].line)
            R.count("obligations")
            if p.abort:
                continue
            if known is False:
                bad("accepted", "an unknown parameter name is accepted")
            want, val = ("idx", m, key), value
        else:
            if p.abort:
                continue
            want, val = None, None
            if not ws and p.used and not any(v for t, v in p.used if mentions(t, key)):
                continue            # no round of the loop
        R.count("obligations", 2)
        if not ws:
            if not any(mentions(t, st.f("param_ptr")) for e in p.events for t in [e.recv] + list(e.args) if t is not None and e.kind != "write"):
                bad("lost", "the value given is not stored")
            continue
        if len(ws) > 1 and len({e.recv for e, i in ws}) > 1:
            bad("more", "more than one parameter is changed", ws[1][0].line)
        e, i = ws[-1]
        if by_name:
            if i != want and opaque_of(i, want):
                bad("index", "the parameter changed is number %s" % show(i), e.line)
            if e.args[0] != val and opaque_of(e.args[0], val):
                bad("value", "the value stored is %s" % show(e.args[0]), e.line)
        else:
            v = e.args[0]
            if i[0] == "idx" and i[1] == key and v[0] == "idx" and v[1] == value:
                if i[2] != v[2]:
                    bad("pairing", "value %s is stored in parameter %s" % (show(v), show(i)), e.line)
            elif i[0] == "any" or opaque_of(i, ("idx", key)) and not mentions(i, key):
                bad("index", "the parameter changed is number %s" % show(i), e.line)
            elif mentions(i, key) and i[0] != "idx" and opaque_of(i, None):
                bad("index", "the parameter changed is number %s" % show(i), e.line)
            elif opaque_of(v, None) and v[0] != "idx":
                bad("value", "the value stored is %s" % show(v), e.line)


ARITH = ("+", "-", "*", "/", "%", "neg", "int", "flt", "any", "par", "idx", "var")


def opaque_of(t, want):
    """Whether a term is spelled out entirely (so that being different means being different)."""
    if not isinstance(t, tuple):
        return True
    if t[0] in ("fld", "glob", "this", "str"):
        return True
    if t[0] not in ARITH:
        return False
    return all(opaque_of(x, None) for x in t[1:])


def run(prog, R):
    R.rule = __doc__.replace("\n", " ")
    seen = set()
    for cls, f in problem.problems(prog):
        R.count("problems")
        try:
            ps = problem.built(prog, cls, f)
        except Undecided as ex:
            R.note("undecided: %s: %s" % (cls, ex))
            continue
        for p in ps:
            if not p.abort:
                R.count("constructor_paths")
                table(prog, R, cls, f, p.state)
                moved(prog, R, cls, f, p)
        for g in problem.setters(prog, cls):
            setter(prog, R, cls, f, g)
        # a problem kept inside another takes the same values
    for g in prog.by_name.get(problem.BASE + "::GetParamIndex", []):
        index(prog, R, g)


def index(prog, R, g):
    try:
        ps = eff.walks(prog, g, problem.THIS, problem.BASE, inline=problem.inline)
    except Undecided as ex:
        R.note("undecided: %s: %s" % (g["name"], ex))
        return
    key = ("par", g["params"][0]["n"])
    for p in ps:
        R.count("obligations")
        st = problem.State(p.walk)
        known = [v for t, v in p.used if t[0] == "call" and short(t) in ("count", "contains") and mentions(t, key)]
        if not p.abort and False in known:
            R.violation("GetParamIndex:unknown", "%s:%s" % (g["file"], g["line"]), "an unknown name gets an index", g["name"])
        elif not p.abort and p.ret is not None and p.ret != ("idx", st.f("param_map"), key) and opaque_of(p.ret, None):
            R.violation("GetParamIndex:value", "%s:%s" % (g["file"], g["line"]), "the index of a name is %s" % show(p.ret), g["name"])


if __name__ == "__main__":
    sys.exit(main("C06", run, {"functions_parsed": 100}))
