"""C14: what is allocated is freed exactly once, by whoever owns it."""
import os, sys
from . import heap, formwalk, forms, ir
from .heap import isptr, cname
from .report import main

# The sources that build here; the solvers, handlers and generators that need libROM are not decided.
BUILT = set("block_smoother component_topology_handler dg_bilinear dg_linear dg_mixed_bilin hdf5_utils hyperreduction_integ input_parser "
            "interface_form interfaceinteg linalg_utils nonlinear_integ parameter parameterized_problem rom_element_collection "
            "topology_handler etc random".split())
LOCAL = ("v", "tmp", "new", "unk")


def roots(h, p, this):
    out = []
    for a in h.store:
        r = h.root(a)
        if r[0] in LOCAL or r[0] == "init" and False:
            continue
        if not this and reaches(r, ("this",)):
            continue
        out.append(r)
    v = p.ret
    if v and v[0] in ("p", "ads"):
        out += list(v[1])
    elif v and v[0] == "obj":
        out.append(v[1])
    return out if this else [a for a in out if not reaches(a, ("this",))]


def reaches(r, t):
    while isinstance(r, tuple) and r:
        if r == t:
            return True
        r = r[1] if len(r) > 1 and r[0] in ("init", "f", "el") else None
    return False


def derived(prog):
    d = {}
    for n, r in prog.records.items():
        for b in r.get("bases", []):
            b = cname(b if isinstance(b, str) else b.get("t") or b.get("n"))
            d.setdefault(b, set()).add(n)
    return d


def concrete(dv, cls, seen=None):
    """The class and everything derived from it."""
    out = [cls]
    for c in sorted(dv.get(cls, ())):
        out += concrete(dv, c)
    return out


def has_dtor(info, cls, depth=0):
    if depth > 8:
        return False
    return cls in info.dtor or any(has_dtor(info, cname(b), depth + 1) for b in bases(info, cls))


def bases(info, cls):
    r = info.P.records.get(cls)
    return [b if isinstance(b, str) else b.get("t", b.get("n")) for b in (r or {}).get("bases", [])]


def adopts(t):
    """Integrators handed to a form are the form's from then on."""
    return not t.startswith("const ") and t.endswith("Integrator")


def obj(h, o):
    f, l, t, arr, what = h.meta[o]
    return "%s %s" % (t, ("handed over as " if what.startswith("param") else "from ") + what if what else "allocated")


def key(kind, f, h, o, text):
    if kind == "shared":
        return "shared:%s:%s" % (ir.fname(f), text.split("'")[1])
    t = h.meta[o][2] if o in h.meta else text.split(" is ")[0]
    g = h.meta[o][0] if o in h.meta else f
    return "%s:%s:%s" % (kind, ir.fname(g), t)


def check(prog, R, unit):
    info = unit_info(prog)
    for f in unit:
        try:
            one(prog, info, R, f)
        except heap.Undecided:
            R.count("functions_undecided")
        except Exception as ex:      # an analysis that breaks down decides nothing
            import traceback
            tb = traceback.extract_tb(sys.exc_info()[2])[-1]
            R.count("analyses_broken_down")
            R.note("undecided: %s at %s:%d in %s" % (ex.__class__.__name__, tb.filename.split("/")[-1], tb.lineno, ir.fname(f)))


_info = {}


def unit_info(prog):
    if id(prog) not in _info:
        _info[id(prog)] = heap.Info(prog)
    return _info[id(prog)]


def one(prog, info, R, f):
    cls = f.get("cls")
    kind = f.get("kind")
    name = ir.fname(f)
    try:
        paths, whole = heap.walks(info, f)
    except heap.Undecided as ex:
        R.count("functions_undecided")
        R.note("undecided: %s: %s" % (name, ex))
        return
    R.count("functions_analysed")
    if not whole:
        R.count("functions_partly_explored")
    R.count("paths", len(paths))
    for p in paths:
        h = p.heap
        for k, g, l, o, text in h.found:
            if k == "uninit" and kind != "ctor" and g.get("kind") == "dtor":
                continue
            emit(R, k, f, h, g, l, o, text)
        if p.stopped:
            continue
        R.count("objects_allocated", len(h.meta))
        for o in h.live(roots(h, p, True)):
            g, l = h.meta[o][:2]
            emit(R, "leak", f, h, g, l, o, "%s is neither freed nor handed over when %s returns" % (obj(h, o), f["name"].split("::")[-1]))
    if not cls or kind == "dtor" or cls not in prog.records:
        return
    held = any(not p.stopped and [o for o, st in p.heap.status.items() if st == "live" or reaches(o, ("this",))] for p in paths) or \
        any(isptr(q["t"]) and adopts(heap.pointee(q["t"])) for q in f["params"])
    if not held and kind != "ctor":
        return
    bad = None
    first = None
    for c in concrete(derived(prog), cls):
        if prog.records[c].get("abstract") and c != cls:
            continue
        b = history(info, R, f, c)
        if b is None:
            return
        if c == cls and not prog.records[c].get("abstract"):
            bad = b
            break
        bad = b if bad is None else {k: v for k, v in bad.items() if k in b}
    for k, (kk, h, g, l, o, text) in sorted((bad or {}).items()):
        emit(R, kk, f, h, g, l, o, text)


def inside(t):
    """The parameter an object was found in."""
    n = 0
    while isinstance(t, tuple) and len(t) > 1:
        if t[0] == "par":
            return t[1] if n else None
        n += t[0] in ("f", "el")
        t = t[1]
    return None


def history(info, R, f, cls):
    """The function, then the destructor: {key: finding}; None when undecided."""
    out = {}
    before, handed, shared = {}, {}, {}
    mine = {q["n"] for q in f["params"] if isptr(q["t"]) and cname(heap.pointee(q["t"]).replace("const ", "")) == cls
            or q["t"].endswith("&") and cname(q["t"].rstrip("& ").replace("const ", "")) == cls}

    def then(h, p):
        before[id(h)] = len(h.found)
        kept = set(h.live(roots(h, p, False))) - set(h.live(roots(h, p, True)))
        for o in list(h.status):
            if o in h.meta and (h.meta[o][4] or "").startswith("parameter") and o not in kept and h.status[o] == "live":
                h.status[o] = "gone"
        known = set(h.status)
        handed[id(h)] = [o for o in h.status if o in h.meta and (h.meta[o][4] or "").startswith("parameter") and h.status[o] == "live"]
        h.destroy(("this",), cls)
        if f.get("kind") == "ctor":
            for o in set(h.status) - known:
                n = o[0] == "init" and inside(o[1])
                if n and n in mine and h.status[o] == "freed":
                    shared.setdefault(n, h)
    try:
        paths, whole = heap.walks(info, f, then=then, adopt=adopts)
    except heap.Undecided as ex:
        R.note("undecided: %s then ~%s: %s" % (ir.fname(f), cls, ex))
        return None
    R.count("histories", len(paths))
    for n, h in sorted(shared.items()):
        out["shared:%s:%s" % (ir.fname(f), n)] = (
            "shared", h, f, f["line"], None, "what %s takes from '%s' is freed by the destructor, and again by that of '%s'" % (ir.fname(f), n, n))
    # a class may note (in a flag) that what it was handed stays the caller's: some history frees what it owns
    released = any(not p.stopped and p.heap.status[o] != "live" for p in paths for o in handed.get(id(p.heap), ()))
    for p in paths:
        if p.stopped:
            continue
        h = p.heap
        for k, g, l, o, text in h.found[before.get(id(h), 0):]:
            if k == "uninit" and f.get("kind") != "ctor":
                continue
            out[key(k, g, h, o, text)] = (k, h, g, l, o, text + " (after %s)" % ir.fname(f))
        for o in h.live(roots(h, p, False)):
            g, l, _, _, what = h.meta[o]
            if what and what.startswith("parameter"):
                if released:
                    continue
                l = f["line"]
            out[key("leak", g, h, o, "")] = ("leak", h, g, l, o, "%s by %s is kept by the object but not freed by its destructor" % (
                obj(h, o), ir.fname(f)))
    return out


def emit(R, k, f, h, g, l, o, text):
    cond = "; ".join(("" if v else "not ") + short(t) for t, v in h.used if t[0] != "old")[:300]
    R.violation(key(k, g, h, o, text), "%s:%s" % (g["file"].split("/repo/")[-1], l), text + (" [when %s]" % cond if cond else ""), f["name"])


def short(t):
    s = heap_show(t)
    return s if len(s) < 80 else s[:77] + "..."


def heap_show(t):
    if not isinstance(t, tuple):
        return str(t)
    if not t:
        return ""
    if t[0] == "nn":
        return "%s set" % ",".join(heap_show(x) for x in t[1])
    if t[0] == "init":
        return heap_show(t[1])
    if t[0] == "f":
        return ("" if t[1] == ("this",) else heap_show(t[1]) + ".") + str(t[2])
    if t[0] == "el":
        return heap_show(t[1]) + "[]"
    if t[0] == "v":
        return t[3]
    if t[0] in ("rd", "par", "p", "t"):
        return heap_show(t[1]) if t[0] != "p" else ",".join(heap_show(x) for x in t[1])
    if t[0] == "any":
        return "loop value"
    return "(" + " ".join(heap_show(x) for x in t) + ")"


def fields(prog, R):
    """Members that are handed freshly allocated objects somewhere: freed somewhere, and in the form they were allocated in."""
    made, freed, touched = {}, {}, {}
    for f in prog.funcs:
        if not f.get("body"):
            continue
        fresh, origin = {}, {}

        def new(e):
            x = ir.strip(e)
            if x["k"] == "new":
                return [(bool(x.get("size") is not None), x)]
            if x["k"] == "ref" and x.get("dk") == "local":
                return fresh.get(x["id"], [])
            if x["k"] == "cond":
                return new(x["x"]) + new(x["y"])
            return []

        def member(e):
            x = ir.strip(e)
            while x["k"] in ("opcall", "sub", "un", "cast") or x["k"] == "mcall" and (x.get("callee") or "").split("::")[-1] in ("Last", "begin", "GetData"):
                if x["k"] == "opcall" and x["op"] not in ("[]", "()", "*", "->"):
                    return None
                x = ir.strip(x["a"][0] if x["k"] == "opcall" else x["x"] if x["k"] == "sub" else x["e"] if x["k"] in ("un", "cast") else x["obj"])
            if x["k"] == "mem" and x.get("dk") == "field":
                return (x.get("cls") or "", x["n"])
            if x["k"] == "ref" and x.get("dk") == "local":
                return origin.get(x["id"])
            return None
        ds = [(v["id"], v["init"]) for s in ir.stmts(f["body"]) if s["k"] == "decl" for v in s["v"] if v.get("init") is not None]
        es = list(ir.body_exprs(f))
        ds += [(ir.strip(e["x"])["id"], e["y"]) for e in es if e["k"] == "assign" and ir.strip(e["x"])["k"] == "ref" and "id" in ir.strip(e["x"])]
        ds += [(s["var"]["id"], s["range"]) for s in ir.stmts(f["body"]) if s["k"] == "rfor"]
        for i, e in ds + ds:
            x = new(e)
            if x:
                fresh.setdefault(i, []).extend(y for y in x if y not in fresh.get(i, []))
            m = member(e)
            if m:
                origin[i] = m
        for i in f.get("inits") or []:
            if i.get("field") and i.get("e") is not None:
                for a, x in new(i["e"]):
                    made.setdefault((f.get("cls"), i["field"]), []).append((a, f, i.get("l") or f["line"]))
        for e in es:
            if e["k"] == "assign":
                m = member(e["y"]) if isptr(e["y"].get("t", "")) and ir.strip(e["x"])["k"] != "ref" else None
                if m:
                    touched.setdefault(m, []).append(f)
                m = member(e["x"]) if ir.strip(e["x"])["k"] != "ref" else None
                for a, x in new(e["y"]) if m else []:
                    made.setdefault(m, []).append((a, f, e.get("l") or f["line"]))
            elif e["k"] == "mcall" and (e.get("callee") or "").split("::")[-1] in ("Append", "push_back"):
                m = member(e["obj"])
                for a, x in new(e["a"][0]) if m and e["a"] else []:
                    made.setdefault(m, []).append((a, f, e.get("l") or f["line"]))
            elif e["k"] == "delete":
                m = member(e["e"])
                if m:
                    freed.setdefault(m, []).append((bool(e.get("array")), f, e.get("l") or f["line"], ir.strip(e["e"])["k"] != "ref"))
            if e["k"] in ("call", "ctor", "opcall", "mcall"):
                for a in e.get("a", []):
                    m = member(a) if a is not None and (isptr(a.get("t", "")) or "*" in a.get("t", "")) else None
                    if m and (e["k"] != "opcall" or e["op"] not in ("[]", "()")) and not (e["k"] == "opcall" and a is e["a"][0]):
                        touched.setdefault(m, []).append(f)
    for m in sorted(made, key=repr):
        r = prog.records.get(m[0])
        if r is None:
            continue
        R.count("members_given_new_objects")
        forms = {a for a, f, l in made[m]}
        for arr, f, l, direct in freed.get(m, []):
            if direct and len(forms) == 1 and arr not in forms:
                R.violation("form:%s::%s" % m, "%s:%s" % (f["file"].split("/repo/")[-1], l), "%s::%s is freed with %s though it holds what %s allocates with %s" % (
                    m[0], m[1], "delete[]" if arr else "delete", ir.fname(made[m][0][1]), "new[]" if forms == {True} else "new"), f["name"])
        if m not in freed and m not in touched and stem(r) in BUILT:
            a, f, l = made[m][0]
            R.violation("leak:%s::%s" % m, "%s:%s" % (f["file"].split("/repo/")[-1], l),
                        "%s::%s is given an object allocated by %s that nothing frees" % (m[0], m[1], ir.fname(f)), f["name"])


def stem(r):
    return os.path.basename(r.get("file") or "").split(".")[0]


def run(prog, R):
    R.rule = ("Path-sensitive walk of every function and of every (constructor or method, destructor) history: each object a path "
              "allocates is freed, returned, stored where the caller or a destructor finds it, or handed to a call that may own it; "
              "no object is freed twice, freed in the wrong form, followed after it was freed, or freed without having been set.")
    R.assumptions = ["library functions that take a raw pointer to anything but a space, mesh, rule or number may take it over",
                     "containers of pointers own nothing themselves"]
    fs = [f for f in prog.funcs if f.get("body") is not None and not f.get("implicit") and "/repo/" in "/repo/" + f["file"]
          and not f.get("dependent") and f["name"] != "main"]
    seen = set()
    uniq = []
    for f in fs:
        k = (f["name"], f["type"], f["file"], f["line"], str(f.get("targs")))
        if k not in seen:
            seen.add(k)
            uniq.append(f)
    info = unit_info(prog)
    uniq = [f for f in uniq if (id(f) in info.relevant or f.get("kind") == "ctor" and has_dtor(info, f["cls"])) and os.path.basename(f["file"]).split(".")[0] in BUILT]
    R.count("functions_that_move_pointers", len(uniq))
    fields(prog, R)
    units = [uniq[i::24] for i in range(24)]
    forms.parallel(prog, R, check, units, 700)


if __name__ == "__main__":
    sys.exit(main("C14", run, {"functions_parsed": 100, "functions_analysed": 60}))
