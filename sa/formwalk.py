"""Symbolic walk of the assembly loops: whose unknowns, elements and transformations meet in each call.

Terms on top of eff.py's:
  ("tr", side, mesh, info)      the transformation handed out for one side of an interface
  ("vdofs", space, element)     the unknowns of an element            ("cat", a, b)  one list behind the other
  ("fe", space, element)        its finite element
  ("gather", vector, unknowns)  the entries of a vector there
  ("loc", n, i, j)              block (i,j) of the local matrix computed by call n;  ("loc", n) when there is one block
  ("lov", n, i)                 part i of the local vector computed by call n
"""
from . import eff, ir
from .eff import Walk, Event, I

# pairs of record fields named alike but for the side
def paired_fields(prog):
    out = {}
    for n, r in prog.records.items():
        if r.get("bases"):
            continue
        names = {f["n"] for f in r.get("fields", []) if f.get("n")}
        for f in names:
            if f.endswith("1") and f[:-1] + "2" in names:
                out[f], out[f[:-1] + "2"] = 1, 2
    return out


def kids(t):
    return [x for x in t[1:] if isinstance(x, tuple)]


class Sides:
    """The sides a term's value stems from: a subset of {1, 2}."""
    def __init__(self, fields, out=None):
        self.fields, self.memo = fields, {}
        self.outs = out or {"GetComponentPair": {1: 1, 2: 2}, "GetRefPortInfo": {1: 1, 2: 2, 3: 1, 4: 2}}

    def of(self, t):
        if not isinstance(t, tuple) or not t:
            return frozenset()
        r = self.memo.get(t)
        if r is None:
            self.memo[t] = frozenset()
            r = self.memo[t] = self.calc(t)
        return r

    def calc(self, t):
        k = t[0]
        if k == "tr":
            return frozenset([t[1]])
        if k == "lov":
            return frozenset([t[2] + 1])
        if k == "fld" and isinstance(t[2], str) and t[2] in self.fields and t[1][0] != "this":
            return frozenset([self.fields[t[2]]])
        if k == "out" and t[1].split("::")[-1] in self.outs and t[2] in self.outs[t[1].split("::")[-1]]:
            return frozenset([self.outs[t[1].split("::")[-1]][t[2]]])
        s = frozenset()
        for x in kids(t):
            s |= self.of(x)
        return s


def space_array(t):
    """The array (or object) a finite element space is taken from."""
    while isinstance(t, tuple) and t[0] in ("idx",):
        t = t[1]
    return t if isinstance(t, tuple) and t[0] in ("fld", "par") else None


class FormWalk(Walk):
    fields = {}

    def __init__(self, *a, **k):
        super().__init__(*a, **k)
        self.calls = {}          # n -> dict describing a local computation
        self.obl = []            # (rule, ok, line, function, message)
        self.sd = Sides(self.fields)
        self.stored = {}         # object allocated here -> the element of an array it was put in

    # ------------------------------------------------------------------ reports
    def where(self, e):
        return e.get("l", self.line), self.frames[-1].f

    def say(self, e, rule, ok, msg):
        l, f = self.where(e)
        self.obl.append((rule, ok, l, f, msg))

    def sides(self, t):
        return self.sd.of(t)

    def same_sided(self):
        """The path is one on which the two sides are the same thing."""
        for t, v in self.used:
            if v and t[0] == "==" and len(t) == 3 and self.sides(t[1]) and self.sides(t[2]) and \
                    self.sides(t[1]) != self.sides(t[2]):
                return True
        return False

    def against(self, t, side):
        """The term stems from the other side only."""
        s = self.sides(t)
        return s == frozenset([3 - side]) and not self.same_sided()

    def agree(self, e, rule, what, *ts):
        """Everything that meets here stems from one side."""
        ss = [self.sides(t) for t in ts]
        ss = [s for s in ss if len(s) == 1]
        ok = len(set(ss)) < 2 or self.same_sided()
        if ss:
            self.say(e, rule, ok, "%s: %s" % (what, " with ".join(show(t) for t in ts)))
        return ok

    # ------------------------------------------------------------------ models
    def vals(self, args):
        return [self.content(v) for v, m in args]

    def addr(self, v):
        return v

    def put_out(self, a, v):
        if not isinstance(a, tuple):
            return
        self.drop(a)
        self.size.pop(a, None)
        self.put(a, v)

    def m_GetInterfaceTransformations(self, e, o, args):
        if len(args) != 5:
            return None
        v = self.vals(args)
        for s in (1, 2):
            ok = not self.against(v[s - 1], s)
            self.say(e, "R1", ok, "mesh of side %d is %s" % (s, show(v[s - 1])))
            self.put_out(args[2 + s][0], ("tr", s, v[s - 1], v[2]))
        return ("void",)

    def m_GetElementVDofs(self, e, o, args):
        if len(args) < 2 or o is None:
            return None
        o = self.content(o)
        el = self.content(args[0][0])
        self.agree(e, "R4", "unknowns of an element", o, el)
        self.put_out(args[1][0], ("vdofs", o, el))
        return ("call", "GetElementVDofs", o, el)

    m_GetElementDofs = m_GetElementVDofs

    def m_GetFE(self, e, o, args):
        if len(args) != 1 or o is None:
            return None
        o = self.content(o)
        el = self.content(args[0][0])
        self.agree(e, "R4", "finite element", o, el)
        return ("fe", o, el)

    def m_GetSubVector(self, e, o, args):
        if len(args) != 2 or o is None or not self.is_local(args[1][0]):
            return None
        o, vd = self.content(o), self.content(args[0][0])
        self.agree(e, "R4", "entries of a vector", o, vd)
        self.put_out(args[1][0], ("gather", o, vd))
        return ("void",)

    def m_Append(self, e, o, args):
        if o is not None and len(args) == 1:
            a, b = self.content(o), self.content(args[0][0])
            if a and b and a[0] in ("vdofs", "cat") and b[0] in ("vdofs", "cat"):
                self.put_out(o, ("cat",) + (a[1:] if a[0] == "cat" else (a,)) + (b[1:] if b[0] == "cat" else (b,)))
                return ("void",)
        return super().m_Append(e, o, args)

    def local_call(self, **k):
        n = len(self.calls)
        self.calls[n] = k
        return n

    def fill_blocks(self, a, n):
        for i in range(2):
            for j in range(2):
                p = self.read(("idx", a, I(i), I(j)))
                self.put_out(p, ("loc", n, i, j))

    def positional(self, e, v, spec, what):
        for k, s in enumerate(spec):
            if s:
                self.say(e, "R1", not self.against(v[k], s), "%s: argument %d belongs to side %d: %s" % (what, k + 1, s, show(v[k])))

    def form_own(self, e):
        return "Integ" not in (e.get("cls") or "")

    def m_AssembleInterfaceMatrix(self, e, o, args):
        if self.form_own(e) or len(args) not in (5, 7):
            return None
        v = self.vals(args)
        if len(args) == 5:
            fes = v[0:2]
            test = trial = fes
            self.positional(e, v, (1, 2, 1, 2), "AssembleInterfaceMatrix")
            tr = v[2:4]
        else:
            trial, test, tr = v[0:2], v[2:4], v[4:6]
            self.positional(e, v, (1, 2, 1, 2, 1, 2), "AssembleInterfaceMatrix")
        self.fill_blocks(args[-1][0], self.local_call(name="AssembleInterfaceMatrix", test=test, trial=trial, tr=tr, e=e))
        return ("void",)

    def m_AssembleInterfaceVector(self, e, o, args):
        if self.form_own(e) or len(args) != 8:
            return None
        v = self.vals(args)
        self.positional(e, v, (1, 2, 1, 2, 1, 2), "AssembleInterfaceVector")
        n = self.local_call(name="AssembleInterfaceVector", test=v[0:2], trial=v[0:2], tr=v[2:4], e=e)
        for s in (0, 1):
            self.state(e, n, s, v[4 + s])
            self.put_out(args[6 + s][0], ("lov", n, s))
        return ("void",)

    def m_AssembleInterfaceGrad(self, e, o, args):
        if self.form_own(e) or len(args) != 7:
            return None
        v = self.vals(args)
        self.positional(e, v, (1, 2, 1, 2, 1, 2), "AssembleInterfaceGrad")
        n = self.local_call(name="AssembleInterfaceGrad", test=v[0:2], trial=v[0:2], tr=v[2:4], e=e)
        for s in (0, 1):
            self.state(e, n, s, v[4 + s])
        self.fill_blocks(args[6][0], n)
        return ("void",)

    def one_mesh(self, e, args, out):
        """A contribution computed on one mesh: (element, transformation, ...) or (element, element, transformation, ...)."""
        v = self.vals(args)
        k = 1 if v[1][0] != "fe" and len(args) % 2 == 0 else 2
        fes = v[0:2] if k == 2 else [v[0], v[0]]
        n = self.local_call(name="AssembleQuadrature", test=fes, trial=fes, tr=[v[k]], e=e)
        x = v[-2]
        if x[0] == "gather":
            self.listed(e, "state", x[2], fes)
        self.put_out(args[-1][0], (out, n))
        return ("void",)

    def m_AssembleQuadratureVector(self, e, o, args):
        if not self.form_own(e) and len(args) in (6, 7):
            return self.one_mesh(e, args, "lof")
        if self.form_own(e) or len(args) != 10:
            return None
        # el1, el2, tr1, tr2, ip, weight, x1, x2, y1, y2
        v = self.vals(args)
        self.positional(e, v, (1, 2, 1, 2, 0, 0, 1, 2), "AssembleQuadratureVector")
        n = self.local_call(name="AssembleQuadratureVector", test=v[0:2], trial=v[0:2], tr=v[2:4], e=e)
        for s in (0, 1):
            self.state(e, n, s, v[6 + s])
            self.put_out(args[8 + s][0], ("lov", n, s))
        return ("void",)

    def m_AssembleQuadratureGrad(self, e, o, args):
        if not self.form_own(e) and len(args) in (6, 7):
            return self.one_mesh(e, args, "loc")
        if self.form_own(e) or len(args) != 9:
            return None
        v = self.vals(args)
        self.positional(e, v, (1, 2, 1, 2, 0, 0, 1, 2), "AssembleQuadratureGrad")
        n = self.local_call(name="AssembleQuadratureGrad", test=v[0:2], trial=v[0:2], tr=v[2:4], e=e)
        for s in (0, 1):
            self.state(e, n, s, v[6 + s])
        self.fill_blocks(args[8][0], n)
        return ("void",)

    def state(self, e, n, s, x):
        """The state of side s holds the unknowns of that side's element."""
        c = self.calls[n]
        if x[0] == "gather" and x[2][0] == "vdofs" and c["trial"][s][0] == "fe":
            self.meets(e, "R4", x[2], c["trial"][s], "state of side %d" % (s + 1))

    def meets(self, e, rule, vd, fe, what):
        """A list of unknowns belongs to the finite element it is used with."""
        if not (vd[0] == "vdofs" and fe[0] == "fe"):
            return
        bad = None
        a, b = space_array(vd[1]), space_array(fe[1])
        if a is not None and b is not None and a != b:
            bad = "%s, but the element is one of %s" % (show(vd[1]), show(fe[1]))
        sa, sb = self.sides(vd), self.sides(fe)
        if len(sa) == 1 and len(sb) == 1 and sa != sb and not self.same_sided():
            bad = "side %d, but the element is of side %d" % (min(sa), min(sb))
        ea, eb = vd[2], fe[2]
        if ea[0] == "fld" and eb[0] == "fld" and ea[1] == eb[1] and ea[2] != eb[2]:
            bad = "%s, but the element is %s" % (ea[2], eb[2])
        self.say(e, rule, bad is None, "%s: unknowns of %s" % (what, bad or show(vd)))

    def role(self, e, what, vd, other):
        """Rows are not unknowns of what is called the trial space, nor columns of the test space."""
        a = space_array(vd[1]) if vd[0] == "vdofs" else None
        n = a[2] if a and a[0] == "fld" else a[1] if a else None
        if isinstance(n, str) and other in n.lower():
            self.say(e, "R2", False, "%s: unknowns of the %s space, %s" % (what, other, show(vd)))

    # a face seen from one mesh
    def m_AssembleFaceMatrix(self, e, o, args):
        v = self.vals(args)
        if len(args) == 6:
            trial, test, tr = v[0:2], v[2:4], v[4]
        elif len(args) == 4:
            trial = test = v[0:2]
            tr = v[2]
        else:
            return None
        for fs in (trial, test):
            for s, fe in enumerate(fs):
                if fe[0] == "fe" and fe[2][0] == "fld" and fe[2][1] == tr and fe[2][2] in ("Elem1No", "Elem2No"):
                    w = 1 if fe[2][2] == "Elem1No" else 2
                    two = any(g[0] == "fe" and g[2] == ("fld", tr, "Elem2No") for g in fs)
                    self.say(e, "R1", w == s + 1 or not two, "AssembleFaceMatrix: element %d of the face is given as element %d" % (w, s + 1))
        n = self.local_call(name="AssembleFaceMatrix", test=test, trial=trial, tr=[tr], e=e, face=True)
        self.put_out(args[-1][0], ("loc", n))
        return ("void",)

    # ------------------------------------------------------------------ into the global matrix
    def target(self, e, o):
        return super().target(e, o)

    def block_of(self, o):
        """(row, column) indices of the element of an array of matrices."""
        if o[0] == "new":
            for a, v in self.store.items():
                if v == o and a[0] == "idx" and len(a) == 4:
                    return a[2], a[3], True
            return None
        if o[0] == "idx" and len(o) == 4:
            return o[2], o[3], o[2][0] == "int"
        return None

    def m_AddSubMatrix(self, e, o, args):
        if len(args) < 3 or o is None:
            return None
        rows, cols, m = self.vals(args)[:3]
        if m[0] != "loc":
            self.say(e, "R2", None, "what is added is not a local matrix")
            return ("void",)
        c = self.calls[m[1]]
        if len(m) == 4:
            i, j = m[2], m[3]
            self.meets(e, "R2", rows, c["test"][i], "rows of block (%d,%d)" % (i, j))
            self.meets(e, "R2", cols, c["trial"][j], "columns of block (%d,%d)" % (i, j))
            self.role(e, "rows of block (%d,%d)" % (i, j), rows, "trial")
            self.role(e, "columns of block (%d,%d)" % (i, j), cols, "test")
            self.sized(e, o, rows, cols)
            self.landing(e, o, i, j)
        else:
            self.listed(e, "rows", rows, c["test"])
            self.listed(e, "columns", cols, c["trial"])
            for what, vd, other in (("rows", rows, "trial"), ("columns", cols, "test")):
                for p in vd[1:] if vd[0] == "cat" else (vd,):
                    self.role(e, what, p, other)
        return ("void",)

    def sized(self, e, o, rows, cols):
        """A matrix allocated here has the sizes of the spaces its rows and columns belong to."""
        if o in self.stored:
            for t, vd, w in ((self.stored[o][0], rows, "rows"), (self.stored[o][1], cols, "columns")):
                if t[0] == "call" and t[1].endswith("Size") and len(t) == 3 and vd[0] == "vdofs":
                    a, b = space_array(t[2]), space_array(vd[1])
                    if a is not None and b is not None:
                        self.say(e, "R2", a == b, "%s of a matrix with %s: unknowns of %s" % (w, show(t), show(vd)))

    def landing(self, e, o, i, j):
        """Block (i,j) goes to the matrix of that pair of sides."""
        b = self.block_of(o)
        if not b:
            return
        for idx, s, w in ((b[0], i, "row"), (b[1], j, "column")):
            if not b[2]:
                self.say(e, "R2", not self.against(idx, s + 1), "block (%d,%d): %s %s" % (i, j, w, show(idx)))
            elif idx[0] == "int":
                self.say(e, "R2", idx[1] == s, "block (%d,%d) goes to %s %d of the pair" % (i, j, w, idx[1]))

    def listed(self, e, what, vd, fes):
        """The unknowns of both elements of a face, one behind the other."""
        parts = vd[1:] if vd[0] == "cat" else (vd,)
        if not all(p[0] == "vdofs" for p in parts):
            return
        if len(parts) == 1:
            self.meets(e, "R2", parts[0], fes[0], what)
            if fes[1][0] == "fe" and fes[1][2][0] == "fld" and fes[1][2][2] == "Elem2No" and parts[0][2][0] == "fld":
                self.say(e, "R2", False, what + ": the unknowns of the second element of the face are missing")
        else:
            for k, p in enumerate(parts[:2]):
                self.meets(e, "R2", p, fes[k], what + " of element %d" % (k + 1))

    def m_AddElementVector(self, e, o, args):
        if len(args) != 2 or o is None:
            return None
        vd, x = self.vals(args)
        o = self.content(o)
        self.agree(e, "R3", "entries of a vector", o, vd)
        if x[0] == "lov":
            c = self.calls[x[1]]
            self.meets(e, "R3", vd, c["test"][x[2]], "part %d of the local vector" % (x[2] + 1))
            self.say(e, "R3", not self.against(o, x[2] + 1), "part %d of the local vector goes to %s" % (x[2] + 1, show(o)))
        return ("void",)

    def m_AddSubMatrixRtAP(self, e, o, args):
        if len(args) != 6:
            return None
        R, rr, A, P, pr, M = self.vals(args)
        self.agree(e, "R4", "rows of a basis", R, rr)
        self.agree(e, "R4", "rows of a basis", P, pr)
        if A[0] == "loc" and len(A) == 4:
            c, i, j = self.calls[A[1]], A[2], A[3]
            self.meets(e, "R2", rr, c["test"][i], "rows of block (%d,%d)" % (i, j))
            self.meets(e, "R2", pr, c["trial"][j], "columns of block (%d,%d)" % (i, j))
            for t, s, w in ((R, i, "rows"), (P, j, "columns")):
                self.say(e, "R2", not self.against(t, s + 1), "%s of block (%d,%d): basis %s" % (w, i, j, show(t)))
            self.landing(e, self.read(args[5][0]) if args[5][0][0] in ("var", "idx", "fld") else args[5][0], i, j)
        elif A[0] == "loc":
            c = self.calls[A[1]]
            self.listed(e, "rows", rr, c["test"])
            self.listed(e, "columns", pr, c["trial"])
        return ("void",)

    def m_AddMultTransposeSubMatrix(self, e, o, args):
        if len(args) == 4:
            v = self.vals(args)
            self.agree(e, "R3", "rows of a basis", v[0], v[1], v[2], v[3])
            if v[2][0] == "lof":
                self.listed(e, "rows", v[1], self.calls[v[2][1]]["test"])
            elif v[2][0] == "lov":
                self.meets(e, "R3", v[1], self.calls[v[2][1]]["test"][v[2][2]], "part %d of the local vector" % (v[2][2] + 1))
            return ("void",)

    def m_MultSubMatrix(self, e, o, args):
        if len(args) == 4:
            v = self.vals(args)
            self.agree(e, "R4", "rows of a basis", v[0], v[1], v[2])
            self.put_out(args[3][0], ("gather", ("call", "expand", v[0], v[2]), v[1]))
            return ("void",)

    def construct(self, a, e):
        super().construct(a, e)
        if "SparseMatrix" in (e.get("cls") or e.get("t") or "") and len([x for x in e["a"] if x is not None]) >= 2:
            self.stored[a] = (self.ev(e["a"][0]), self.ev(e["a"][1]), e)

    def write(self, a, v):
        super().write(a, v)
        if isinstance(v, tuple) and v in self.stored and a[0] == "idx" and len(a) == 4 and a[2][0] == a[3][0] == "int":
            r, c, e = self.stored[v]
            for t, s, w in ((r, a[2][1], "rows"), (c, a[3][1], "columns")):
                if s in (0, 1):
                    self.say(e, "R2", not self.against(t, s + 1), "%s of block (%d,%d): %s" % (w, a[2][1], a[3][1], show(t)))


def show(t, d=0):
    if t[0] == "tr":
        return "transformation %d" % t[1]
    if t[0] in ("vdofs", "fe") and d < 3:
        return "%s at %s" % (show(t[1], d + 1), show(t[2], d + 1))
    if t[0] == "cat":
        return " then ".join(show(x, d + 1) for x in t[1:])
    if t[0] == "gather":
        return "%s at %s" % (show(t[1], d + 1), show(t[2], d + 1))
    return eff.show(t, d)
