"""C09: assembly and evaluation never modify their input state.

A. On normal forms: in every configuration of every assembly and evaluation routine, what was passed read-only holds at the end
   what it held at the beginning.
B. On the tree of every function of the program: a flow-sensitive alias analysis says which memory a pointer, reference or view
   refers to; nothing that refers to a read-only input only is written to, directly, by a modifying method, or by a callee.
"""
import os, re, sys
from . import ir, forms, integ, num
from . import term as T
from .term import P
from .absint import Unsupported, Obj
from .report import main

DATA = re.compile(r"^(mfem::)?(Vector|BlockVector|DenseMatrix|DenseTensor|SparseMatrix|GridFunction|HypreParVector|ParGridFunction|"
                  r"BlockMatrix|MatrixBlocks|DenseSymmetricMatrix|Array2D<.*>|Array<.*>|DenseMatrixInverse|BlockOperator|Operator|Matrix)$")
VIEWABLE = re.compile(r"^(mfem::)?(Vector|BlockVector|DenseMatrix|DenseTensor|GridFunction|ParGridFunction|Array<(int|double|bool)>)$")
NUM = ("double", "float", "int", "bool", "long", "unsigned int", "size_t", "unsigned long")
# non-const parameters that are inputs all the same (they are not const because a view of them is taken)
READONLY = {
    "RtAP": ("R", "P"), "DenseRtAP": ("R", "P"), "SparseRtAP": ("R", "P"), "AddwRtAP": ("R", "P"),
    "Orthonormalize": ("mat1",), "GetBasisElement": ("basis",),
}
# methods that are not const and modify nothing one can see in the values
QUIET = set("GetData Data GetBlock GetBlockView SetSize MakeRef begin end operator() operator[] GetColumnReference SetDataAndSize "
            "NewDataAndSize SetData NewMemoryAndSize UseExternalData Update Reset ClearExternalData HostRead Read UseDevice Size "
            "GetMemory Last Elem SyncMemory SyncAliasMemory SyncToBlocks SyncFromBlocks GetI GetJ HostReadI HostReadJ HostReadData "
            "Reserve GetRow GetColumn SetLinkOwnership MakeDataOwner StealData LoseData Destroy DeleteAll SetSpace FESpace "
            "GetSubMatrix NumRows NumCols GetFE GetElementDofs Finalize SetOperator SetDynamic ReadWrite Write HostWrite "
            "HostReadWrite GetTrueVector SetTrueVector IsBlockMatrix SetBlock EnsureMultTranspose BuildTranspose".split())
SETVIEW = set("SetDataAndSize NewDataAndSize SetData NewMemoryAndSize MakeRef UseExternalData Update Reset".split())
ACCESS = set("GetData Data GetBlock GetBlockView begin end operator() operator[] Read Write ReadWrite HostRead HostWrite HostReadWrite "
             "Last Elem GetColumn GetRow GetI GetJ GetMemory".split())


def cname(t):
    t = t.strip()
    while True:
        u = t
        if t.startswith("const "):
            t = t[6:].strip()
        if t.endswith("const"):
            t = t[:-5].strip()
        t = t.rstrip("&").strip()
        if t == u:
            return t


def kind(t):
    """('ref'|'ptr'|'val', const, class)"""
    t = t.strip()
    if t.endswith("&"):
        b = t.rstrip("& ").strip()
        if b.endswith("*") or b.endswith("*const"):
            return "refptr", b.endswith("const"), b
        return "ref", b.startswith("const "), cname(b)
    if t.endswith("*const"):
        t = t[:-5].strip()
    if t.endswith("*"):
        b = t[:-1].strip()
        return "ptr", b.startswith("const ") or b.endswith(" const"), cname(b)
    return "val", True, cname(t)


def holds(c):
    return c in NUM or bool(DATA.match(c))


class Walk:
    def __init__(self, A, f):
        self.A, self.f = A, f
        self.env = {}
        self.found = []         # (line, roots, text)
        self.writes = set()     # parameter indexes
        self.sites = 0
        ro = READONLY.get(f["name"].split("::")[-1], ())
        self.inputs = set()
        for i, p in enumerate(f["params"]):
            k, const, c = kind(p["t"])
            if k in ("ref", "ptr") and const and not holds(c):
                self.env[p["id"]] = frozenset([("rec", p["n"])])     # a record of inputs
                continue
            if k not in ("ref", "ptr") or not holds(c):
                continue
            if const or p["n"] in ro:
                r = ("in", p["n"])
                self.inputs.add(p["n"])
            else:
                r = ("par", i, p["n"])
            self.env[p["id"]] = frozenset([r])

    # -------------------------------------------------------- what an expression refers to
    def roots(self, e):
        if e is None:
            return frozenset()
        k = e["k"]
        t = e.get("t", "")
        if k == "cast":
            return self.roots(e["e"])
        if k == "other" and len(e.get("a", [])) == 1:
            return self.roots(e["a"][0])
        if k == "ref":
            return self.env.get(e.get("id"), frozenset([("own", e.get("id") or e["n"])]))
        if k == "this":
            return frozenset([("own", "this")])
        if k == "mem":
            if e.get("dk") == "field" and (e.get("b") is None or ir.strip(e["b"])["k"] == "this"):
                return self.env.get(("f", e["n"]), frozenset([("own", "this." + e["n"])]))
            if e.get("dk") == "field" and e.get("b") is not None:
                b = self.roots(e["b"])
                c = cname(t.strip().rstrip("&").replace("*", " ").strip())
                if b and all(r[0] in ("rec", "in") and len(r) == 2 for r in b) and holds(c) and c not in NUM:
                    return frozenset(("in", "%s.%s" % (r[1], e["n"]), "deep") for r in b)
                if b and all(r[0] == "rec" for r in b):
                    return b
            return frozenset([("own", ir.show(e))])
        if k == "un" and e["op"] in ("*", "&", "++", "--"):
            return self.roots(e["e"])
        if k == "bin" and e["op"] in ("+", "-") and "*" in t:
            x = e["x"] if "*" in e["x"].get("t", "") or "[" in e["x"].get("t", "") else e["y"]
            return self.roots(x)
        if k == "sub":
            return self.deeper(self.roots(e["x"]), t)
        if k == "cond":
            return self.roots(e["x"]) | self.roots(e["y"])
        if k == "assign":
            return self.roots(e["x"])
        if k == "opcall":
            if e["op"] in ("[]", "()") and len(e["a"]) >= 2:
                return self.deeper(self.roots(e["a"][0]), t)
            if e["op"] in ("=", "+=", "-=", "*=", "/="):
                return self.roots(e["a"][0])
        if k == "mcall" and e.get("obj") is not None:
            n = (e.get("callee") or "").split("::")[-1]
            if n in ACCESS and holds(cname(e.get("cls", ""))):
                return self.deeper(self.roots(e["obj"]), t)
        if k == "ctor":
            r = self.view(e)
            if r is not None:
                return r
        return frozenset([("own", "value")])

    @staticmethod
    def deeper(r, t):
        """An element that is itself a pointer to an object leads elsewhere."""
        u = t.strip().rstrip("&").strip()
        if u.endswith("*") or u.endswith("*const"):
            b = u.rstrip("const").strip()[:-1].strip() if u.endswith("*const") else u[:-1].strip()
            if cname(b) not in NUM:
                return frozenset(x if x[0] == "in" and len(x) == 3 else ("own", "element") for x in r)
        return r

    def view(self, e):
        """Constructors that make a view: what of; None otherwise."""
        c = cname(e.get("cls") or "")
        a = e.get("a", [])
        if not VIEWABLE.match(c) or not a or e.get("copy") or e.get("move"):
            return None
        pt = e.get("pt") or []
        k, const, b = kind(pt[0]) if pt else ("val", True, "")
        if k == "ptr" and b in NUM and len(a) >= 2:
            return self.roots(a[0])
        if k == "ref" and not const and VIEWABLE.match(b) and len(a) >= 2:
            return self.roots(a[0])
        return None

    # -------------------------------------------------------- writes
    def write(self, e, what, line):
        self.sites += 1
        r = self.roots(e)
        if r and all(x[0] == "in" for x in r):
            self.found.append((line or self.line, sorted(x[1] for x in r), what))
        for x in r:
            if x[0] == "par":
                self.writes.add(x[1])

    def expr(self, e):
        if e is None:
            return
        k = e["k"]
        if k == "lambda":
            return
        if e.get("l"):
            self.line = e["l"]
        for c in ir.kids(e):
            self.expr(c)
        l = e.get("l")
        if k == "assign":
            x = ir.strip(e["x"])
            t = x.get("t", "")
            if x["k"] == "ref" and kind(t)[0] != "ref" and "*" in t:
                if x.get("dk") in ("local", "param") and e["op"] == "=":
                    self.env[x["id"]] = self.roots(e["y"])
                return
            if "*" in t and x["k"] == "mem":
                if e["op"] == "=" and (x.get("b") is None or ir.strip(x["b"])["k"] == "this"):
                    self.env[("f", x["n"])] = self.roots(e["y"])
                return
            if x["k"] == "ref" and x.get("id") not in self.env:
                return
            if x["k"] == "mem":
                return
            self.write(e["x"], "%s is assigned" % ir.show(x), l)
        elif k == "un" and e["op"] in ("++", "--"):
            x = ir.strip(e["e"])
            if "*" in x.get("t", "") or x["k"] in ("ref", "mem") and x.get("id") not in self.env:
                return
            self.write(e["e"], "%s is changed" % ir.show(x), l)
        elif k == "opcall" and e["op"] in ("=", "+=", "-=", "*=", "/=") and len(e["a"]) == 2:
            x = ir.strip(e["a"][0])
            if holds(cname(x.get("t", ""))):
                if e["op"] == "=" and x["k"] in ("ref", "mem") and all(r[0] == "own" for r in self.roots(x)):
                    return
                self.write(e["a"][0], "%s %s ..." % (ir.show(x), e["op"]), l)
        elif k in ("call", "mcall", "ctor", "opcall"):
            self.call(e, l)

    def call(self, e, l):
        k = e["k"]
        n = (e.get("callee") or "").split("::")[-1]
        a = e.get("a", [])
        g = self.A.prog.callee(e)
        if k == "mcall" and e.get("obj") is not None and holds(cname(e.get("cls", ""))):
            ob = e["obj"]
            if n in SETVIEW and a and a[0] is not None:
                pt = (e.get("pt") or [""])[0]
                if kind(pt)[0] in ("ptr", "ref") and (kind(pt)[2] in NUM and kind(pt)[0] == "ptr" or VIEWABLE.match(kind(pt)[2])):
                    i = 1 if n == "MakeRef" and VIEWABLE.match(kind((e.get("pt") or [""])[0])[2]) is None else 0
                    self.bind(ob, self.roots(a[i]))
                    return
            if n == "GetColumnReference" and len(a) == 2:
                self.bind(a[1], self.roots(ob))
                return
            if n in ("SetSize", "Destroy", "DeleteAll", "ClearExternalData"):
                x = ir.strip(ob)
                if x["k"] == "ref" and kind(x.get("t", ""))[0] == "val":
                    self.bind(ob, frozenset([("own", x.get("id"))]))
            if not e.get("cconst") and n not in QUIET and not (g is not None and g.get("body")):
                self.write(ob, "%s.%s(...)" % (ir.show(ir.strip(ob)), n), l)
        if k == "ctor" and self.view(e) is not None:
            return
        if k == "ctor" and (e.get("copy") or e.get("move")):
            return
        if k == "opcall" and (e["op"] in ("[]", "()", "<<", ">>", "==", "!=", "*", "->")):
            return
        pts = e.get("pt") or []
        args = a
        if k == "opcall" and e.get("cls") is not None:
            args = a[1:]
        if k == "mcall" and n in QUIET and n not in ("GetRow", "GetColumn", "GetSubMatrix", "GetElementDofs", "GetBlockView"):
            return
        for i, x in enumerate(args):
            if x is None or i >= len(pts):
                continue
            kd, const, c = kind(pts[i])
            if kd not in ("ref", "ptr") or const or not holds(c):
                continue
            r = self.roots(x)
            if not any(y[0] in ("in", "par") for y in r):
                continue
            if g is not None and (g.get("body") is not None):
                if i not in self.A.summary.get(id(g), ()):
                    continue
            elif k == "ctor" and c not in NUM and not VIEWABLE.match(c):
                continue
            elif k == "ctor":
                continue
            elif g is not None and not g.get("body") or "/repo/" in (e.get("cid") or ""):
                pass
            self.write(x, "%s is passed to %s, which writes it" % (ir.show(ir.strip(x)), n), l)

    def bind(self, x, r):
        x = ir.strip(x)
        while x["k"] == "cast" or x["k"] == "un" and x["op"] in ("*", "&"):
            x = ir.strip(x["e"])
        if x["k"] == "ref" and "id" in x:
            self.env[x["id"]] = r
        elif x["k"] == "mem" and (x.get("b") is None or ir.strip(x["b"])["k"] == "this"):
            self.env[("f", x["n"])] = r

    # -------------------------------------------------------- statements
    def stmt(self, s):
        if s is None:
            return
        k = s["k"]
        if s.get("l"):
            self.line = s["l"]
        if k == "block":
            for x in s["s"]:
                self.stmt(x)
        elif k == "expr":
            self.expr(s["e"])
        elif k == "decl":
            for v in s["v"]:
                self.decl(v)
        elif k == "if":
            if s.get("init"):
                self.stmt(s["init"])
            if s.get("cvar"):
                self.decl(s["cvar"])
            self.expr(s["c"])
            self.fork([[s.get("th") or s.get("then") or s.get("x")], [s.get("el") or s.get("else") or s.get("y")]])
        elif k in ("for", "while", "do", "rfor"):
            if k == "for":
                self.stmt(s.get("init"))
            if k == "rfor":
                self.expr(s["range"])
                v = s["var"]
                t = v["t"].strip()
                self.env[v["id"]] = self.deeper(self.roots(s["range"]), t) if t.endswith("&") or t.endswith("*") else frozenset([("own", v["id"])])
            for r in range(2):
                before = dict(self.env)
                if k != "do":
                    self.expr(s.get("c"))
                self.stmt(s["body"])
                if k == "do":
                    self.expr(s.get("c"))
                self.expr(s.get("inc"))
                self.join([before, self.env])
        elif k == "switch":
            self.expr(s.get("c"))
            before = dict(self.env)
            self.stmt(s["body"])
            self.join([before, self.env])
        elif k in ("case", "default", "label"):
            self.stmt(s["s"])
        elif k == "return":
            self.expr(s.get("e"))
        elif k == "try":
            self.stmt(s["body"])

    def fork(self, bs):
        start, out = dict(self.env), []
        for b in bs:
            self.env = dict(start)
            for s in b:
                self.stmt(s)
            if not any(self.leaves(s) for s in b):
                out.append(self.env)
        self.join(out or [start])

    def leaves(self, s):
        while s is not None and s["k"] == "block" and s["s"]:
            s = s["s"][-1]
        return s is not None and s["k"] in ("return", "break", "continue")

    def join(self, es):
        out = {}
        for e in es:
            for k, v in e.items():
                out[k] = out.get(k, frozenset()) | v
        for e in es:
            for k in out:
                if k not in e:
                    out[k] |= {("own", k)}
        self.env = out

    def decl(self, v):
        e = v.get("init")
        t = v["t"].strip()
        if e is not None:
            self.expr(e)
        if t.endswith("&") or "*" in t:
            r = self.roots(e) if e is not None else frozenset()
            self.env[v["id"]] = r or frozenset([("own", v["id"])])
            return
        x = e
        while x is not None and x["k"] in ("cast", "other") and (x.get("e") or x.get("a")):
            x = x["e"] if x["k"] == "cast" else x["a"][0]
        r = self.view(x) if x is not None and x["k"] == "ctor" else None
        if r is None and VIEWABLE.match(cname(t)):
            r = frozenset([("own", v["id"])])
        if r is not None:
            self.env[v["id"]] = r

    def run(self):
        self.line = self.f["line"]
        for i in self.f.get("inits") or []:
            e = i.get("e")
            if e is None:
                continue
            self.expr(e)
            x = e
            while x["k"] in ("cast", "other") and (x.get("e") or x.get("a")):
                x = x["e"] if x["k"] == "cast" else x["a"][0]
            if i.get("field") and x["k"] == "ctor":
                r = self.view(x)
                if r is not None:
                    self.env[("f", i["field"])] = r
        self.stmt(self.f["body"])
        return self


class Alias:
    def __init__(self, prog):
        self.prog = prog
        self.funcs = [f for f in prog.funcs if f.get("body") and not f.get("implicit") and not f.get("dependent")]
        self.summary = {}
        while True:
            ch = False
            self.walked = []
            for f in self.funcs:
                w = Walk(self, f).run()
                self.walked.append(w)
                if w.writes - self.summary.get(id(f), set()):
                    self.summary[id(f)] = self.summary.get(id(f), set()) | w.writes
                    ch = True
            if not ch:
                break


def views(prog, R):
    A = Alias(prog)
    seen = set()
    for w in A.walked:
        f = w.f
        k = (f["name"], f["type"], f["file"], f["line"], str(f.get("targs")))
        if k in seen:
            continue
        seen.add(k)
        if not w.inputs:
            continue
        R.count("functions_with_read_only_inputs")
        R.count("read_only_inputs", len(w.inputs))
        R.count("writes_examined", w.sites)
        for line, names, what in w.found:
            R.violation("view:%s:%s" % (ir.fname(f), ",".join(names)), "%s:%s" % (f["file"].split("/repo/")[-1], line),
                        "the read-only input %s is modified: %s" % (", ".join("'%s'" % n for n in names), what), f["name"])


SKIP = ("tr", "mesh", "Mesh")


def owner(a):
    """('par', name) for what is reached through a parameter, ('fld', class field) for what a pointer member refers to."""
    while isinstance(a, T.Atom):
        if a.op == "par":
            return "par", a.args[0]
        if a.op == "fld":
            return "fld", a.args[-1]
        a = a.args[0] if a.args else None
    return None, None


def buf_of(o):
    c = o.f.get("buf")
    return c.v if c is not None else None


def state(prog, R, unit):
    fields = {}
    for e in unit:
        rs = forms.runs(prog, R, e)
        for r in rs or []:
            if not r.ok:
                continue
            outs = {id(o) for o in r.outs.values()}
            for a, o in list(r.I.objs.items()):
                if not isinstance(o, Obj):
                    continue
                k, n = owner(a)
                if k == "par" and (n.startswith("out") or n.startswith(SKIP)):
                    continue
                if k == "fld" and not points(prog, e.cls, n):
                    continue
                if k is None or id(o) in outs:
                    continue
                b = buf_of(o)
                if b is None:
                    continue
                R.count("input_states")
                if b in r.I.written and b.ents:
                    changed(prog, R, r, a, o, b, n)


def points(prog, cls, n):
    todo = [cls]
    while todo:
        c = todo.pop()
        rec = prog.records.get(c)
        if not rec:
            continue
        for f in rec.get("fields", []):
            if f["n"] == n:
                return "*" in f["t"] or "&" in f["t"]
        todo += [b if isinstance(b, str) else b.get("t", b.get("n")) for b in rec.get("bases", [])]
    return False


def changed(prog, R, r, a, o, b, n):
    R.count("inputs_written_to")
    fresh = r.I.make(o.cls, a, 0, 0)
    line = b.ents[0].line
    try:
        for (p1, vs, x), (p2, _, y) in zip(forms.values(r, o), forms.values(r, fresh)):
            x, y = T.canon(x), T.canon(y)
            if x == y or not isinstance(num.differ(x, y, vs, r.cond), tuple):
                continue
            names = {nm: p["n"] for p, nm, out in r.entry.par}
            who = names.get(n, n)
            R.violation("state:%s:%s" % (r.entry, n), "%s:%s" % (r.entry.f["file"].split("/repo/")[-1], line),
                        "'%s' does not hold at the end what it was passed with" % who, r.entry.name)
            return
    except Unsupported as ex:
        R.note("undecided: %s: the content of %s: %s" % (r.entry, n, ex))


def run(prog, R):
    R.rule = ("Normal forms: after every configuration of every assembly/evaluation routine the read-only inputs hold what they held. "
              "Alias analysis of every function: no write goes to memory that belongs to a read-only input only, through whatever pointer, "
              "reference, view or callee.")
    R.assumptions = ["library methods that are const, and library parameters that are const, are not written",
                     "different parameters do not overlap"]
    views(prog, R)
    forms.parallel(prog, R, state, list(forms.by_class(prog).values()), 500)


if __name__ == "__main__":
    sys.exit(main("C09", run, {"functions_parsed": 100, "functions_with_read_only_inputs": 100, "routines_analysed": 40}))
