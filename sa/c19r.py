"""Readers of the HDF5 helpers (part of C19): the number of dimensions of a data set is checked before so many extents are
taken from it, and the size of each array read back is compared with something before its entries or its storage are used.
Quiet where the value of interest is handed to another function, which may check it."""
import re
from . import ir

CMP = ("==", "!=", "<", ">", "<=", ">=")
SIZES = {"Array": ("Size",), "Array2D": ("NumRows", "NumCols"), "Vector": ("Size",)}


def refs(e):
    return {z["n"] for z in ir.walk(e) if z["k"] == "ref" and z.get("dk") in ("local", "param")}


def scalars(f):
    """local -> expressions it is initialised with or assigned"""
    d = {}
    for s in ir.stmts(f["body"]):
        if s["k"] == "decl":
            for v in s["v"]:
                if v.get("init") is not None:
                    d.setdefault(v["n"], []).append(v["init"])
    for z in ir.body_exprs(f):
        if z["k"] == "assign":
            t = ir.strip(z["x"])
            if t["k"] == "ref":
                d.setdefault(t["n"], []).append(z["y"])
    return d


def sources(e, d, seen=()):
    """the expression and what the locals in it stand for"""
    yield e
    for n in refs(e):
        if n not in seen:
            for x in d.get(n, []):
                yield from sources(x, d, seen + (n,))


def callee(z):
    return re.sub(r"<.*>", "", z.get("callee") or "").split("::")[-1]


def const(e):
    e = ir.strip(e)
    while e["k"] == "cast":
        e = ir.strip(e["e"])
    v = e.get("v", e.get("val"))
    return v if e["k"] in ("int", "lit", "num") and isinstance(v, int) else None


def extents(f, R):
    """H5Sget_simple_extent_dims(s, D, ..): with D[k] used, the number of dimensions is compared with more than k."""
    zs = list(ir.body_exprs(f))
    d = scalars(f)
    into = {}
    for z in zs:
        if z["k"] == "call" and callee(z) == "H5Sget_simple_extent_dims" and len(z["a"]) > 1:
            for n in refs(z["a"][1]):
                into[n] = z
    for n, z in into.items():
        used = [const(x["y"]) for x in zs if x["k"] == "sub" and n in refs(x["x"])]
        used = [k for k in used if k is not None]
        if not used:
            continue
        need = 1 + max(used)
        R.count("obligations")
        R.count("extents_read_back")
        ok, seen = False, False
        for x in zs:
            if x["k"] == "bin" and x["op"] in CMP:
                for a, b in ((x["x"], x["y"]), (x["y"], x["x"])):
                    if any(w["k"] == "call" and callee(w) == "H5Sget_simple_extent_ndims" for y in sources(a, d) for w in ir.walk(y)):
                        seen = True
                        c = const(b)
                        ok = ok or c is None or c >= need or x["op"] in (">", "<=") and c + 1 >= need
            if x["k"] in ("call", "mcall") and not callee(x).startswith(("H5", "__assert")):
                for a in x["a"]:
                    if any(w["k"] == "call" and callee(w) == "H5Sget_simple_extent_ndims" for y in sources(a, d) for w in ir.walk(y)):
                        ok = True
                    if z["a"] and refs(z["a"][0]) & refs(a):
                        ok = True
        if not ok:
            R.violation("%s:%s:extents" % (f["name"], f["type"]), "%s:%s" % (f["file"].split("/repo/")[-1], z["l"]),
                        "%d extents are taken from the data set, whose number of dimensions is %s" %
                        (need, "compared with a smaller number only" if seen else "not checked"), f["name"])


def arrays(f, R):
    """An array read back by ReadDataset: its sizes are compared before its storage or entries are used."""
    zs = list(ir.body_exprs(f))
    d = scalars(f)
    kinds = {}
    for s in ir.stmts(f["body"]):
        if s["k"] == "decl":
            for v in s["v"]:
                m = re.match(r"^(?:const )?mfem::(Array2D|Array|Vector)\b(?!.*[*&]$)", v["t"])
                if m:
                    kinds[v["n"]] = m.group(1)
    filled, passed, used, told = {}, set(), {}, {}
    for z in zs:
        if z["k"] == "call" and callee(z) == "ReadDataset":
            for n in refs(z["a"][-1]):
                if n in kinds:
                    filled[n] = z
        elif z["k"] in ("call", "mcall", "ctor", "construct", "new", "opcall"):
            for a in z.get("a") or []:
                a = ir.strip(a)
                if a is not None and a["k"] == "ref" and a["n"] in kinds and not (
                        z["k"] == "opcall" and a is ir.strip(z["a"][0])):
                    passed.add(a["n"])
        if z["k"] == "mcall":
            o = ir.strip(z["obj"]) if z.get("obj") else None
            if o is not None and o["k"] == "ref" and o["n"] in kinds and callee(z) not in (
                    "Size", "NumRows", "NumCols", "SetSize", "Append", "DeleteAll"):
                used.setdefault(o["n"], z)
        if z["k"] in ("opcall", "sub"):
            o = ir.strip(z["a"][0] if z.get("a") else z["x"])
            if o is not None and o["k"] == "ref" and o["n"] in kinds:
                used.setdefault(o["n"], z)
        meets = []
        if z["k"] == "bin" and z["op"] in CMP:
            meets = [z["x"], z["y"]]
        elif z["k"] in ("call", "mcall") and callee(z) not in ("SetSize", "ReadDataset", "__assert_fail"):
            meets = [a for a in z["a"] if a]
        if meets:
            for y in (w for a in meets for w in sources(a, d)):
                for w in ir.walk(y):
                    if w["k"] == "mcall" and callee(w) in ("Size", "NumRows", "NumCols"):
                        o = ir.strip(w["obj"])
                        if o["k"] == "ref":
                            told.setdefault(o["n"], set()).add(callee(w))
    for n, z in sorted(filled.items()):
        if n not in used:
            continue
        R.count("obligations")
        R.count("arrays_read_back")
        miss = [q for q in SIZES[kinds[n]] if q not in told.get(n, ())]
        if miss and n not in passed:
            R.violation("%s:%s:read back" % (f["name"], n), "%s:%s" % (f["file"].split("/repo/")[-1], used[n].get("l") or z["l"]),
                        "'%s' is read from the file and used, and its %s is not compared with anything" % (n, " and ".join(miss)), f["name"])


def run(prog, R):
    for f in prog.funcs.values() if isinstance(prog.funcs, dict) else prog.funcs:
        if f["file"].endswith(("hdf5_utils.cpp", "hdf5_utils.hpp")) and f.get("body"):
            R.count("hdf5_helpers_analysed")
            extents(f, R)
            arrays(f, R)
