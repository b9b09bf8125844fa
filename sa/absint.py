"""Abstract interpreter over the resolved syntax trees.

Values are index-notation terms (term.py).  Nothing is executed and no size is fixed: loops are summarised in
closed form (accumulators become sums, temporaries their value in the last iteration, array writes become
indexed assignments), conditions that depend on a loop variable become 0/1 factors, and conditions that depend
only on the configuration (which coefficients are given, interior or boundary face, ...) partition the analysis.
Whatever the domain cannot express raises Unsupported: the routine is then left undecided.
"""
import re, sys
from fractions import Fraction as Fr
from . import term as T
from .term import P, Poly, Atom, ZERO, ONE, atom, subst
from .ir import as_assert, strip, show, NORETURN, walk, stmts, stmt_exprs

sys.setrecursionlimit(20000)


class Unsupported(Exception):
    pass


class Abort(Exception):
    """the path ends in an error"""


class Return(Exception):
    def __init__(self, v):
        self.v = v


class Restart(Exception):
    """an equality was learned: start over with it known from the beginning"""


class Continue(Exception):
    pass


class Break(Exception):
    pass


import os
DBG = os.environ.get('SA_DBG')


class Null:
    def __repr__(self):
        return "NULL"


NULL = Null()


class SymPtr:
    """A pointer we know nothing about but its origin."""
    __slots__ = ("a", "t")

    def __init__(self, a, t):
        self.a, self.t = a, t

    def __eq__(self, o):
        return isinstance(o, SymPtr) and o.a is self.a

    def __hash__(self):
        return hash(self.a)

    def __repr__(self):
        return "&" + self.a.s


class Ptr:
    __slots__ = ("to",)

    def __init__(self, to):
        self.to = to

    def __eq__(self, o):
        return isinstance(o, Ptr) and (o.to is self.to or (isinstance(o.to, Elem) and o.to == self.to))

    def __hash__(self):
        return id(self.to)

    def __repr__(self):
        return "&%r" % (self.to,)


class DPtr:
    """double*: a position in a buffer"""
    __slots__ = ("buf", "off")

    def __init__(self, buf, off):
        self.buf, self.off = buf, off

    def __eq__(self, o):
        return isinstance(o, DPtr) and o.buf is self.buf and o.off == self.off

    def __hash__(self):
        return hash((id(self.buf), self.off))


class Opaque:
    """a value of no interest (strings built at run time, profiler, ...)"""
    def __init__(self, a=None):
        self.a = a

    def __repr__(self):
        return "opaque"


OPAQUE = Opaque()


class Poison:
    pass


POISON = Poison()


class Cell:
    __slots__ = ("v", "ld", "gd", "name", "t")

    def __init__(self, v, ld, gd, name="", t=""):
        self.v, self.ld, self.gd, self.name, self.t = v, ld, gd, name, t

    def __repr__(self):
        return "cell(%s)" % self.name


class Elem:
    """an element of a buffer, as an lvalue"""
    __slots__ = ("buf", "addr")

    def __init__(self, buf, addr):
        if addr.bvs:
            addr = T.simplify(addr)
            if addr.bvs:
                raise Unsupported("index given by a sum")
        self.buf, self.addr = buf, addr

    def __eq__(self, o):
        return isinstance(o, Elem) and o.buf is self.buf and o.addr == self.addr

    def __hash__(self):
        return hash((id(self.buf), self.addr))


class Obj:
    __slots__ = ("cls", "a", "f", "ld", "gd", "sym")

    def __init__(self, cls, a, ld, gd, sym=False):
        self.cls, self.a, self.f, self.ld, self.gd, self.sym = cls, a, {}, ld, gd, sym

    def __repr__(self):
        return "<%s %s>" % (self.cls, self.a)


class Buf:
    __slots__ = ("name", "base", "ents", "ld", "gd")

    def __init__(self, name, base, ld, gd):
        self.name, self.base, self.ents, self.ld, self.gd = name, base, [], ld, gd

    def __repr__(self):
        return "buf(%s)" % self.name


class Ent:
    __slots__ = ("kind", "addr", "val", "g", "line")     # kind: set, add, reset

    def __init__(self, kind, addr, val, g, line):
        self.kind, self.addr, self.val, self.g, self.line = kind, addr, val, g, line


def ty(t):
    """(base class/type, number of *, is reference, const)"""
    t = t.strip()
    ref = False
    while t.endswith("&"):
        t, ref = t[:-1].strip(), True
    stars = 0
    const = False
    while True:
        if t.endswith("const"):
            t = t[:-5].strip()
        elif t.endswith("*"):
            stars += 1
            t = t[:-1].strip()
        else:
            break
    if t.startswith("const "):
        const, t = True, t[6:].strip()
    if t.startswith("struct ") or t.startswith("class "):
        t = t.split(" ", 1)[1]
    return t, stars, ref, const


INTS = {"int", "long", "unsigned int", "unsigned long", "short", "size_t", "bool", "long long", "char",
        "unsigned long long"}
FLOATS = {"double", "float"}
VEC, MAT = "mfem::Vector", "mfem::DenseMatrix"
IGNORED_CLASSES = {"TimeProfiler", "mfem::StopWatch"}


def is_int(t):
    return ty(t)[0] in INTS


class Frame:
    __slots__ = ("vars", "this", "func", "dyn", "rets", "gl", "ll")

    def __init__(self, func, this):
        self.vars, self.this, self.func = {}, this, func
        self.rets, self.gl, self.ll = [], 0, 0


class Loop:
    __slots__ = ("var", "depth", "wcells", "rcells", "wbufs", "rbufs", "mcells", "mbufs", "start")


class Interp:
    MAXSTEPS = 400000

    def __init__(self, prog, script=(), models=None):
        self.P = prog
        self.trace = []              # decisions taken: (atom, value)
        self.alts = []
        self.dec = {}
        self.sub = {}                # substitutions from decisions and assumptions
        self.assumed = []
        self.frames = []
        self.loops = []
        self.guards = []
        self.journal = None
        self.objs = {}
        self.globals = {}
        self.line = 0
        self.steps = 0
        self.mismatch = []
        self.nfresh = 0
        self.models = models or {}
        self.noreturn = set()
        self.writes_fields = set()
        self.depth = 0
        self.external = set()
        self.written = set()
        self.touched = set()      # (func name) inlined
        for k, v in script:
            if k not in self.dec:
                self.trace.append((k, v))
                self.learn(k, v, True)

    # ------------------------------------------------------------ state
    def log(self, undo):
        if self.journal is not None:
            self.journal.append(undo)

    def newcell(self, v, name="", t=""):
        return Cell(v, len(self.loops), len(self.guards), name, t)

    def newbuf(self, name, base):
        return Buf(name, base, len(self.loops), len(self.guards))

    def norm(self, p):
        return subst(p, self.sub) if self.sub else p

    def guard(self, gd):
        g = ONE
        for x in self.guards[gd:]:
            g = g * x
        return g

    def cget(self, c):
        if c.v is POISON:
            raise Unsupported("value left over from a loop: " + c.name)
        for L in reversed(self.loops):
            if L.depth <= c.ld:
                break
            if c not in L.wcells:
                L.rcells.add(c)
        return c.v

    def cset(self, c, v):
        g = self.guard(c.gd)
        if g != ONE:
            old = self.cget(c)
            if isinstance(v, Poly) and isinstance(old, Poly):
                v = T.simplify(g * v + (ONE - g) * old)
            elif isinstance(v, Poly) and old is None:
                v = g * v + (ONE - g) * P(atom("undef", c.name))
            elif v == old:
                pass
            else:
                raise Unsupported("conditional assignment of a pointer or object: " + c.name)
        for L in reversed(self.loops):
            if L.depth <= c.ld:
                break
            L.wcells.add(c)
        o = c.v
        c.v = v
        self.written.add(c)
        self.log(lambda: setattr(c, "v", o))

    def bwrite(self, b, kind, addr, val, g=None):
        gg = self.guard(b.gd)
        g = gg if g is None else g * gg
        if kind == "reset" and g != ONE:
            raise Unsupported("conditional resize")
        if kind == "add":
            val = g * val
            if val == ZERO:
                return
            g = ONE
        if g == ZERO:
            return
        self.bappend(b, Ent(kind, addr, val, g, self.line))

    def bappend(self, b, ent):
        for L in reversed(self.loops):
            if L.depth <= b.ld:
                break
            L.wbufs.add(b)
            if b not in L.start:
                L.start[b] = len(b.ents)
        b.ents.append(ent)
        self.written.add(b)
        self.log(lambda: b.ents.pop())

    def breset(self, b, base):
        """content becomes base(addr), all earlier entries forgotten"""
        self.bwrite(b, "reset", None, base)

    def bread(self, b, A):
        if A.bvs:
            fs = {x: T.fresh_fv(x.args[1], "b") for x in A.bvs}
            r = self.bread(b, subst(A, {x: P(f) for x, f in fs.items()}))
            return subst(r, {f: P(x) for x, f in fs.items()})
        A = T.simplify(A)
        v, rem = ZERO, ONE
        starts = [(L.start.get(b, len(b.ents)), L) for L in self.loops if L.depth > b.ld]
        lim = max([x for x, L in starts] + [0])
        n = len(b.ents)
        for i in range(n - 1, -2, -1):
            if i < lim:
                for s, L in starts:
                    if i < s:
                        L.rbufs.add(b)
            if i < 0:
                break
            e = b.ents[i]
            if e.kind == "reset":
                return T.simplify(v + rem * self.basev(e.val, A))
            ad, va, g = T.refresh(e.addr, [e.val, e.g])
            dl = P1(T.dlt(ad - A))
            if dl == ZERO:
                continue
            w = T._rawmul(dl, g)
            v = v + T.simplify(rem * T.simplify(T._rawmul(w, va)))
            if e.kind == "set":
                occ = T.simplify(w)
                rem = T.simplify(rem * (ONE - occ)) if occ != ZERO else rem
                if rem == ZERO:
                    return T.simplify(v)
        return T.simplify(v + rem * self.basev(b.base, A))

    def basev(self, base, A):
        return base(A) if callable(base) else base

    # ------------------------------------------------------------ objects
    def stale(self, a):
        return lambda A: P(atom("old", a, A))

    def undef(self, a):
        return lambda A: P(atom("undef", a, A))

    def make(self, cls, a, ld=None, gd=None, sym=False, fresh=False):
        """A new object of class cls named by atom a. fresh: just constructed."""
        ld = len(self.loops) if ld is None else ld
        gd = len(self.guards) if gd is None else gd
        o = Obj(cls, a, ld, gd, sym)
        # all elements of an array of vectors or matrices are taken to have one size
        fam = a
        if a.op == "elem" and any(isinstance(x, Poly) and x.const() is None for x in a.args[1:]):
            fam = atom("elem", a.args[0])
        c = lambda v, n: Cell(v, ld, gd, "%s.%s" % (a.s, n))
        if cls == VEC:
            b = Buf(a.s, self.undef(a) if fresh else self.stale(a), ld, gd)
            o.f = dict(buf=c(b, "data"), off=c(ZERO, "off"), size=c(ZERO if fresh else P(atom("Size", fam)), "size"))
        elif cls in (MAT, "mfem::SparseMatrix"):
            b = Buf(a.s, self.undef(a) if fresh else self.stale(a), ld, gd)
            o.f = dict(buf=c(b, "data"), off=c(ZERO, "off"), h=c(ZERO if fresh else P(atom("Height", fam)), "h"),
                       w=c(ZERO if fresh else P(atom("Width", fam)), "w"))
        elif cls.startswith("mfem::Array<") or cls.startswith("std::vector<"):
            el = cls[cls.index("<") + 1:-1].strip()
            o.f = dict(size=c(ZERO if fresh else P(atom("Size", fam)), "size"))
            if el in FLOATS or el in INTS:
                b = Buf(a.s, self.undef(a) if fresh else self.stale(a), ld, gd)
                o.f.update(buf=c(b, "data"), off=c(ZERO, "off"))
        elif cls.startswith("mfem::Array2D<"):
            o.f = dict(rows=c(ZERO if fresh else P(atom("NumRows", a)), "rows"),
                       cols=c(ZERO if fresh else P(atom("NumCols", a)), "cols"))
        return o

    def obj_of(self, a, cls, sym=False):
        o = self.objs.get(a)
        if o is None:
            o = self.objs[a] = self.make(cls, a, 0, 0, sym)
        return o

    def fresh_atom(self, what):
        self.nfresh += 1
        return atom(what, "%s%d" % (self.frames[-1].func["name"].split("::")[-1] if self.frames else "", self.nfresh))

    def symbolic(self, t, a, index=False):
        """An unknown value of type t named by atom a: a Poly, SymPtr or Obj."""
        b, stars, ref, const = ty(t)
        if stars:
            return SymPtr(a, t)
        if b in INTS or b in FLOATS or b in self.P.enums or "enum" in b:
            return P(a)
        if b in ("mfem::Geometry::Type", "mfem::Type"):
            return P(a)
        if b.startswith("std::basic_string") or b == "std::string":
            return Opaque(a)
        if b.startswith("std::function"):
            return Opaque(a)
        return self.obj_of(a, b)

    def deref(self, v):
        if isinstance(v, Ptr):
            return v.to
        if isinstance(v, SymPtr):
            b, stars, ref, const = ty(v.t)
            if stars > 1:
                raise Unsupported("pointer to pointer")
            k = atom("nonnull", v.a)
            if self.dec.get(k) is False:
                raise Abort("null pointer used: %s" % v.a.s)
            if b in INTS or b in FLOATS:
                raise Unsupported("unknown pointer to number: " + v.a.s)
            return self.obj_of(v.a, b)
        if isinstance(v, DPtr):
            return Elem(v.buf, v.off)
        if v is NULL:
            raise Abort("null pointer used")
        raise Unsupported("dereference of %r" % (v,))

    def field(self, o, name, t):
        c = o.f.get(name)
        if c is None:
            a = atom("fld", o.a, name)
            b, stars, ref, const = ty(t)
            v = self.symbolic(t, a)
            if isinstance(v, Obj) and not stars:
                c = v
            else:
                c = Cell(v, 0, 0, "%s.%s" % (o.a.s, name), t)
            o.f[name] = c
        return c

    def get(self, lv):
        """lvalue -> value"""
        if isinstance(lv, Cell):
            v = self.cget(lv)
            if v is None:
                return P(atom("undef", lv.name))
            return self.norm(v) if isinstance(v, Poly) else v
        if isinstance(lv, Elem):
            return self.norm(self.bread(lv.buf, lv.addr))
        if isinstance(lv, Obj):
            return lv
        if lv is NULL:
            raise Abort("null pointer used")
        raise Unsupported("read of %r" % (lv,))

    def put(self, lv, v):
        if isinstance(lv, Cell):
            self.cset(lv, v)
        elif isinstance(lv, Elem):
            if not isinstance(v, Poly):
                raise Unsupported("non-number stored in array")
            # v = old + delta is an addition
            self.bwrite(lv.buf, "set", lv.addr, v)
        else:
            raise Unsupported("assignment to %r" % (lv,))

    # ------------------------------------------------------------ decisions
    def decide_atom(self, k):
        if k in self.dec:
            return self.dec[k]
        self.alts.append(list(self.trace) + [(k, False)])
        self.trace.append((k, True))
        self.learn(k, True)
        return True

    def learn(self, k, v, first=False):
        self.dec[k] = v
        self.sub[k] = ONE if v else ZERO
        if k.op == "d" and v:
            if self.equate(k.args[0]) and not first:
                raise Restart()

    def equate(self, p):
        """p = 0: rewrite one size-like atom of p."""
        best = None
        for mo, c in p.m.items():
            if len(mo) == 1 and mo[0][1] == 1 and mo[0][0].op not in ("bv", "fv", "cv", "d", "ge", "max", "min", "rt"):
                x = mo[0][0]
                ex = P(x) - p * (Fr(1) / c)
                if x in T.atoms_in(ex):
                    continue
                rank = (x.op not in ("Size", "Height", "Width", "NumRows", "NumCols", "fld", "old"), x.uid * -1)
                if best is None or rank < best[0]:
                    best = (rank, x, ex)
        if best:
            x, ex = best[1], best[2]
            ex = self.norm(ex)
            if x in T.atoms_in(ex):
                return False
            for k in list(self.sub):
                self.sub[k] = subst(self.sub[k], {x: ex})
            self.sub[x] = ex
            return True
        return False

    def loopvars(self, p):
        return any(a.op in ("fv", "bv", "mk", "mkb") for a in T.atoms_in(p))

    def truth(self, c):
        """Reduce a condition to 0, 1 or a 0/1 poly depending on loop variables only."""
        for _ in range(60):
            c = T.simplify(self.norm(c))
            k = c.const()
            if k is not None:
                return ONE if k else ZERO
            todo = None
            for a in sorted((a for mo in c.m for a, e in mo), key=lambda a: a.uid):
                if self.loopvars(P(a)):
                    continue
                todo = a
                break
            if todo is None:
                return c
            if todo.op in ("d", "ge", "nonnull", "bool"):
                self.decide_atom(todo)
            else:
                self.decide_atom(atom("bool", todo))
                v = self.dec[atom("bool", todo)]
                c = subst(c, {todo: ONE if v else ZERO})
        raise Unsupported("condition too complex")

    def assume(self, c):
        """assert(c)"""
        c = T.simplify(self.norm(c))
        k = c.const()
        if k is not None:
            if k == 0:
                raise Abort("assertion")
            return
        # a product of conditions: each holds
        if len(c.m) == 1:
            (mo, co), = c.m.items()
            if co == 1:
                for a, e in mo:
                    if a.op in ("d", "ge", "nonnull", "bool") and not self.loopvars(P(a)):
                        if a not in self.dec:
                            self.trace.append((a, True))
                            self.learn(a, True)
                return
        if len(c.m) == 2 and c.m.get(()) == 1:
            (mo, co), = [(m, x) for m, x in c.m.items() if m]
            if co == -1 and len(mo) == 1 and mo[0][0].op in ("d", "ge", "nonnull", "bool") and not self.loopvars(P(mo[0][0])):
                if mo[0][0] not in self.dec:
                    self.trace.append((mo[0][0], False))
                    self.learn(mo[0][0], False)
                return
        return

    def boolean(self, v, t=""):
        """value -> 0/1 poly"""
        if isinstance(v, Poly):
            k = v.const()
            if k is not None:
                return ONE if k else ZERO
            if self.isbool(v):
                return v
            d = T.dlt(v)
            return ONE - (P(d) if isinstance(d, Atom) else d)
        if v is NULL:
            return ZERO
        if isinstance(v, (Ptr, DPtr)):
            return ONE
        if isinstance(v, SymPtr):
            return self.norm(P(atom("nonnull", v.a)))
        if isinstance(v, Opaque):
            return P(atom("bool", v.a or self.fresh_atom("opaque")))
        raise Unsupported("condition on %r" % (v,))

    def isbool(self, p):
        ats = set(a for mo in p.m for a, e in mo)
        return bool(ats) and all(a.op in ("d", "ge", "nonnull", "bool") for a in ats)

    # ------------------------------------------------------------ expressions
    def ev(self, e):
        """expression -> value"""
        e0 = e
        k = e["k"]
        if k == "int":
            return P(int(e["v"]))
        if k == "float":
            return P(Fr(str(e["v"])))
        if k == "bool":
            return ONE if e["v"] else ZERO
        if k == "str":
            return str(e["v"])
        if k == "char":
            return P(int(e["v"])) if str(e.get("v", "")).lstrip("-").isdigit() else OPAQUE
        if k == "null":
            return NULL
        if k == "this":
            return Ptr(self.frames[-1].this)
        if k == "zero":
            return ZERO
        if k == "cast":
            v = self.ev(e["e"])
            b, stars, ref, const = ty(e.get("t", ""))
            if isinstance(v, Poly) and b in INTS and is_fl(e["e"].get("t", "")):
                return self.fn("int", v)
            if stars and isinstance(v, Poly) and v == ZERO:
                return NULL
            return v
        if k == "ref" and e["dk"] == "enum":
            return self.enum(e)
        if k == "ref" and e["dk"] == "func":
            return Opaque(atom("func", e.get("callee") or e["n"]))
        if k in ("ref", "mem", "sub"):
            return self.get(self.lv(e))
        if k == "un":
            return self.unary(e)
        if k == "bin":
            return self.binary(e)
        if k == "assign":
            lv = self.assign(e)
            return self.get(lv)
        if k == "cond":
            return self.ternary(e)
        if k == "call":
            return self.call(e)
        if k == "mcall":
            return self.mcall(e)
        if k == "opcall":
            return self.opcall(e)
        if k == "ctor":
            return self.ctor(e)
        if k == "new":
            return self.new(e)
        if k == "delete":
            self.ev(e["e"])
            return None
        if k == "ilist":
            return [self.ev(x) for x in e["a"]]
        if k == "lambda":
            return OPAQUE
        if k == "sizeof":
            return P(atom("sizeof", e.get("st", "")))
        if k == "other":
            if e.get("cls_") in ("MaterializeTemporaryExpr", "ExprWithCleanups", "CXXBindTemporaryExpr", "ParenExpr",
                                 "CXXDefaultArgExpr", "CXXDefaultInitExpr", "ConstantExpr", "CXXFunctionalCastExpr") \
                    and len(e["a"]) == 1:
                return self.ev(e["a"][0])
        raise Unsupported("expression %s %s" % (k, e.get("cls_", "")))

    def enum(self, e):
        q = e.get("q", e["n"])
        for en in self.P.enums.values():
            for c in en.get("values", en.get("c", [])):
                if (c.get("q") or c.get("n")) == q and "v" in c:
                    return P(int(c["v"]))
        return P(atom("enum", q))

    def lv(self, e):
        """expression -> lvalue (Cell, Elem, Obj)"""
        k = e["k"]
        if k == "ref":
            if e["dk"] in ("local", "param", "slocal"):
                fr = self.frames[-1]
                v = fr.vars.get(e["id"])
                if v is None:
                    raise Unsupported("unknown variable " + e["n"])
                return v
            if e["dk"] == "global":
                return self.glob(e)
            raise Unsupported("reference to " + e["n"])
        if k == "mem":
            if e["dk"] == "smember":
                return self.glob(e)
            b = e["b"]
            if b is None or b["k"] == "this":
                o = self.frames[-1].this
            elif e.get("arrow"):
                o = self.deref(self.ev(b))
            else:
                o = self.obj(b)
            if isinstance(o, Cell):
                o = o.v
            if not isinstance(o, Obj):
                raise Unsupported("member of %r" % (o,))
            return self.member(o, e)
        if k == "sub":
            b = self.ev(e["x"])
            i = self.ev(e["y"])
            if isinstance(b, DPtr):
                return Elem(b.buf, b.off + i)
            if isinstance(b, list):
                c = i.const()
                if c is None:
                    raise Unsupported("array index")
                return b[int(c)]
            if isinstance(b, SymPtr):
                bt, stars, ref, const = ty(b.t)
                if stars == 1 and (bt in FLOATS or bt in INTS):
                    return Elem(self.symbuf(b), i)
            raise Unsupported("subscript of %r" % (b,))
        if k == "un" and e["op"] == "*":
            return self.deref(self.ev(e["e"]))
        if k == "un" and e["op"] in ("++", "--") and not e["post"]:
            self.unary(e)
            return self.lv(e["e"])
        if k == "assign":
            return self.assign(e)
        if k == "cast":
            return self.lv(e["e"])
        if k in ("mcall", "opcall", "call"):
            v = self.mcall(e) if k == "mcall" else self.opcall(e, True) if k == "opcall" else self.call(e)
            if isinstance(v, (Cell, Elem, Obj)):
                return v
            return self.temp(v)
        if k == "cond":
            c = self.truth(self.boolean(self.ev(e["c"])))
            if c == ONE:
                return self.lv(e["x"])
            if c == ZERO:
                return self.lv(e["y"])
            raise Unsupported("conditional lvalue")
        if k == "other" and len(e.get("a", [])) == 1:
            return self.lv(e["a"][0])
        return self.temp(self.ev(e))

    def temp(self, v):
        if isinstance(v, Obj):
            return v
        return self.newcell(v, "tmp")

    def symbuf(self, p):
        k = ("symbuf", p.a)
        b = self.objs.get(k)
        if b is None:
            b = self.objs[k] = Buf(p.a.s, self.stale(p.a), 0, 0)
        return b

    def obj(self, e):
        """expression -> Obj"""
        v = self.lv(e)
        if isinstance(v, Cell):
            v = v.v
        if isinstance(v, (Ptr, SymPtr)):
            v = self.deref(v)
        if isinstance(v, Obj):
            return v
        if isinstance(v, (Opaque, str)):
            return v
        raise Unsupported("object %s = %r" % (show(e), v))

    def member(self, o, e):
        n = e["n"]
        m = self.models.get("member")
        if m:
            r = m(self, o, e)
            if r is not None:
                return r
        return self.field(o, n, e["t"])

    def glob(self, e):
        q = e.get("q", e["n"])
        c = self.globals.get(q)
        if c is None:
            g = self.P.globals.get(q)
            a = atom("glob", q)
            if g and g.get("const") and g.get("init"):
                self.globals[q] = Cell(self.ev(g["init"]), 0, 0, q)
                return self.globals[q]
            v = self.symbolic(e["t"], a)
            c = v if isinstance(v, Obj) else Cell(v, 0, 0, q, e["t"])
            self.globals[q] = c
        return c

    def unary(self, e):
        op = e["op"]
        if op == "&":
            lv = self.lv(e["e"])
            if isinstance(lv, Elem):
                return DPtr(lv.buf, lv.addr)
            return Ptr(lv)
        if op == "*":
            return self.get(self.deref(self.ev(e["e"])))
        if op in ("++", "--"):
            lv = self.lv(e["e"])
            v = self.get(lv)
            if isinstance(v, DPtr):
                n = DPtr(v.buf, v.off + (1 if op == "++" else -1))
            elif isinstance(v, Poly):
                n = v + (1 if op == "++" else -1)
            else:
                raise Unsupported("++ on %r" % (v,))
            if isinstance(lv, Elem):
                self.bwrite(lv.buf, "add", lv.addr, P(1 if op == "++" else -1))
            else:
                self.put(lv, n)
            return v if e["post"] else n
        v = self.ev(e["e"])
        if op == "-":
            return -num(v)
        if op == "+":
            return num(v)
        if op == "!":
            return ONE - self.boolean(v)
        raise Unsupported("operator " + op)

    def fn(self, name, *args):
        """an uninterpreted scalar function"""
        cs = []
        for a in args:
            cs.append(T.close_poly(a) if isinstance(a, Poly) else a)
        return P(atom("fn", name, *cs))

    def binary(self, e):
        op = e["op"]
        if op in ("&&", "||"):
            x = self.boolean(self.ev(e["x"]))
            x = T.simplify(self.norm(x))
            if op == "&&":
                if x == ZERO:
                    return ZERO
                if not self.loopvars(x):
                    x = self.truth(x)
                    if x == ZERO:
                        return ZERO
                return x * self.boolean(self.ev(e["y"]))
            if x == ONE:
                return ONE
            if not self.loopvars(x):
                x = self.truth(x)
                if x == ONE:
                    return ONE
            y = self.boolean(self.ev(e["y"]))
            return x + y - x * y
        if op == ",":
            self.ev(e["x"])
            return self.ev(e["y"])
        x, y = self.ev(e["x"]), self.ev(e["y"])
        if op in ("==", "!=") and isinstance(x, Poly) and isinstance(y, Poly) and \
                (is_fl(e["x"].get("t", "")) or is_fl(e["y"].get("t", ""))):
            d = self.norm(x - y)
            if d.const() is None and self.loopvars(d):
                # a computed real number hits an exact value: taken not to (short cuts such as "if (c == 0.0) return")
                return ZERO if op == "==" else ONE
        return self.arith(op, x, y, e["x"].get("t", ""), e["y"].get("t", ""))

    def arith(self, op, x, y, tx="", tyy=""):
        if isinstance(x, DPtr) and isinstance(y, Poly) and op in ("+", "-"):
            return DPtr(x.buf, x.off + y if op == "+" else x.off - y)
        if isinstance(y, DPtr) and isinstance(x, Poly) and op == "+":
            return DPtr(y.buf, y.off + x)
        if isinstance(x, SymPtr) and isinstance(y, Poly) and op in ("+", "-"):
            b, stars, ref, const = ty(x.t)
            if stars == 1 and b in FLOATS:
                return DPtr(self.symbuf(x), y if op == "+" else -y)
        if op in ("==", "!="):
            r = self.equal(x, y)
            return r if op == "==" else ONE - r
        x, y = num(x), num(y)
        if op == "+":
            return x + y
        if op == "-":
            return x - y
        if op == "*":
            return T.simplify(x * y) if (x.m and y.m) else ZERO
        if op == "/":
            if is_int(tx) and is_int(tyy):
                a, b = x.const(), y.const()
                if a is not None and b:
                    q = abs(a) // abs(b)
                    return P(q if (a >= 0) == (b >= 0) else -q)
                q = divide(x, y)
                if q is not None:
                    return q
                return self.fn("idiv", x, y)
            if not y.m:
                return P(T.atom("inv", ZERO)) * x
            i = T.inv(y)
            return x * (P(i) if isinstance(i, Atom) else i)
        if op == "%":
            a, b = x.const(), y.const()
            if a is not None and b:
                return P(a - b * (abs(a) // abs(b)) * (1 if (a >= 0) == (b >= 0) else -1))
            return self.fn("mod", x, y)
        if op in ("<", ">", "<=", ">="):
            if op in (">", "<="):
                x, y, op = y, x, "<" if op == ">" else ">="
            # now  x < y   or  x >= y
            isint = is_int(tx) and is_int(tyy)
            if op == "<":
                r = self.geq(y - x - 1) if isint else ONE - self.geq(x - y)
            else:
                r = self.geq(x - y)
            return r
        raise Unsupported("operator " + op)

    def geq(self, p):
        p = T.simplify(p)
        # ge(c - max(a,b)) -> product
        for mo, c in p.m.items():
            if len(mo) == 1 and mo[0][1] == 1 and mo[0][0].op in ("max", "min"):
                a = mo[0][0]
                u, v = subst(p, {a: T.open_poly(a.args[0])}), subst(p, {a: T.open_poly(a.args[1])})
                if (a.op == "max") == (c < 0):
                    return self.geq(u) * self.geq(v)
                x, y = self.geq(u), self.geq(v)
                return x + y - x * y
        if p.bvs:
            p = T.close_poly(p)
        r = T.ge(p)
        r = P(r) if isinstance(r, Atom) else r
        return T.simplify(r)

    def equal(self, x, y):
        if isinstance(x, Poly) and isinstance(y, Poly):
            p = T.simplify(x - y)
            if p.bvs:
                p = T.close_poly(p)
            d = T.dlt(p)
            return T.simplify(P(d) if isinstance(d, Atom) else d)
        for a, b in ((x, y), (y, x)):
            if b is NULL or (isinstance(b, Poly) and b == ZERO and not isinstance(a, Poly)):
                return ONE - self.boolean(a)
        if isinstance(x, str) and isinstance(y, str):
            return ONE if x == y else ZERO
        if isinstance(x, (Ptr, DPtr, SymPtr)) and isinstance(y, (Ptr, DPtr, SymPtr)):
            if x == y:
                return ONE
            if isinstance(x, Ptr) and isinstance(y, Ptr):
                return ZERO
            return P(atom("bool", atom("same", str(x), str(y))))
        raise Unsupported("comparison of %r and %r" % (x, y))

    def ternary(self, e):
        a = as_assert(e)
        if a is not None:
            self.assume(self.boolean(self.ev(a)))
            return None
        c = self.truth(self.boolean(self.ev(e["c"])))
        if c == ONE:
            return self.ev(e["x"])
        if c == ZERO:
            return self.ev(e["y"])
        x, y = self.ev(e["x"]), self.ev(e["y"])
        if isinstance(x, Poly) and isinstance(y, Poly):
            r = self.as_max(c, x, y)
            if r is not None:
                return r
            return T.simplify(c * x + (ONE - c) * y)
        if x == y:
            return x
        raise Unsupported("conditional pointer")

    def as_max(self, c, x, y):
        """(a >= b) ? a : b  and the like"""
        a = c.single()
        flip = False
        if a is None:
            a = (ONE - c).single()
            flip = True
        if a is None or a.op != "ge":
            return None
        if flip:
            x, y = y, x
        p = a.args[0]
        cl = lambda q: T.close_poly(q) if q.bvs else q
        for off in (0, 1):
            # ge(x - y - off) ? x : y = max
            if p == cl(T.simplify(x - y - off)):
                r = T.mx("max", x, y)
                return P(r) if isinstance(r, Atom) else r
            if p == cl(T.simplify(y - x - off)):
                r = T.mx("min", x, y)
                return P(r) if isinstance(r, Atom) else r
        return None

    def assign(self, e):
        op = e["op"]
        y = self.ev(e["y"])
        lv = self.lv(e["x"])
        if isinstance(y, (Cell, Elem)):
            y = self.get(y)
        if op == "=":
            if isinstance(lv, Obj):
                raise Unsupported("object assignment " + lv.cls)
            t = e["x"].get("t", "")
            if isinstance(y, Poly) and y == ZERO and ty(t)[1]:
                y = NULL
            if isinstance(lv, Elem) and isinstance(y, Poly):
                self.elem_set(lv, y)
                return lv
            self.put(lv, y)
            return lv
        o = op[:-1]
        if isinstance(lv, Elem) and o in ("+", "-"):
            y = num(y)
            self.bwrite(lv.buf, "add", lv.addr, y if o == "+" else -y)
            return lv
        x = self.get(lv)
        v = self.arith(o, x, y, e["x"].get("t", ""), e["y"].get("t", ""))
        if isinstance(lv, Elem):
            self.bwrite(lv.buf, "set", lv.addr, v)
        else:
            self.put(lv, v)
        return lv

    def elem_set(self, lv, y):
        """x(i) = x(i) + v is an addition (so that it commutes)"""
        self.bwrite(lv.buf, "set", lv.addr, y)

    # ------------------------------------------------------------ calls
    def args(self, e, f=None):
        return e["a"]

    def bind(self, f, args_e, this):
        """Evaluate the arguments for function f; returns a Frame"""
        fr = Frame(f, this)
        for i, p in enumerate(f["params"]):
            if i < len(args_e) and args_e[i] is not None:
                x = args_e[i]
            else:
                x = p.get("def")
            if x is None:
                raise Unsupported("missing argument")
            b, stars, ref, const = ty(p["t"])
            if ref and x["k"] == "un" and x["op"] == "*":
                # a reference bound to nothing aborts where it is used
                v = self.ev(x["e"])
                v = v if v is NULL else self.deref(v)
            elif ref:
                v = self.lv(x)
            else:
                v = self.ev(x)
                if isinstance(v, (Cell, Elem)):
                    v = self.get(v)
                if isinstance(v, Obj) and not stars:
                    v = self.copy(v)
                elif isinstance(v, Poly) and v == ZERO and stars:
                    v = self.newcell(NULL, p["n"], p["t"])
                else:
                    v = self.newcell(v, p["n"], p["t"])
            fr.vars[p["id"]] = v
        return fr

    def copy(self, o):
        m = self.models.get("copy")
        if m:
            r = m(self, o)
            if r is not None:
                return r
        raise Unsupported("copy of " + o.cls)

    def run(self, fr):
        if self.depth > 30:
            raise Unsupported("recursion")
        self.frames.append(fr)
        self.touched.add((fr.func["file"], fr.func["name"]))
        self.depth += 1
        line = self.line
        gl = fr.gl = len(self.guards)
        fr.ll = len(self.loops)
        try:
            try:
                self.stmt(fr.func["body"])
                r = None
            except Return as ex:
                r = ex.v
            if fr.rets and (r is not None or any(v is not None for g, v in fr.rets)):
                # returns under conditions: one value, each part with its condition
                tot = ZERO
                for g, v in fr.rets + ([(self.guard(gl), r)] if r is not None else []):
                    if isinstance(v, (Cell, Elem)) or not isinstance(v, Poly):
                        raise Unsupported("conditional return of a pointer or object")
                    tot = tot + g * v
                r = T.simplify(tot)
        finally:
            del self.guards[gl:]
            self.frames.pop()
            self.depth -= 1
            self.line = line
        return r

    def call(self, e):
        c = e.get("callee")
        if e.get("noreturn") or c in NORETURN:
            raise Abort(c or "noreturn")
        m = self.models.get(c)
        if m:
            return m(self, e, None, e["a"])
        f = self.P.callee(e)
        if f is not None and f.get("body"):
            return self.run(self.bind(f, e["a"], None))
        m = self.models.get("call")
        if m:
            return m(self, e)
        raise Unsupported("call of %s" % c)

    def dispatch(self, e, o):
        """The definition called on object o (virtual dispatch on its class)."""
        n = e.get("callee", "")
        short = n.split("::")[-1]
        if not e.get("qual"):
            f = self.lookup(o.cls, short, e.get("cty"))
            if f is not None:
                return f
        return self.P.callee(e)

    def lookup(self, cls, name, typ, seen=None):
        for f in self.P.by_name.get("%s::%s" % (cls, name), []):
            if f["type"] == typ and f.get("cls") == cls:
                return f
        r = self.P.records.get(cls)
        for b in (r or {}).get("bases", []):
            bn = b if isinstance(b, str) else b.get("t", b.get("n"))
            f = self.lookup(bn, name, typ)
            if f is not None:
                return f
        return None

    def mcall(self, e):
        c = e.get("callee", "?")
        cls = e.get("cls", "")
        if cls in IGNORED_CLASSES:
            return None
        ob = e["obj"]
        if ob is None or ob["k"] == "this":
            o = self.frames[-1].this
        elif e.get("arrow"):
            o = self.deref(self.ev(ob))
        else:
            o = self.lv(ob)
            if isinstance(o, Cell):
                o = o.v
                if isinstance(o, (Ptr, SymPtr)):
                    o = self.deref(o)
        if isinstance(o, Cell):
            o = o.v
        if isinstance(o, Obj) and o.cls in IGNORED_CLASSES:
            return None
        if o is NULL:
            raise Abort("null pointer used")
        if isinstance(o, Obj):
            f = self.dispatch(e, o)
            if f is not None and f.get("body"):
                return self.run(self.bind(f, e["a"], o))
        m = None
        if isinstance(o, Obj) and cls in ("mfem::Operator", "mfem::Matrix") and not e.get("qual"):
            m = self.models.get("%s::%s" % (o.cls, c.split("::")[-1]))
        m = m or self.models.get(c)
        if m:
            return m(self, e, o, e["a"])
        m = self.models.get("mcall")
        if m:
            return m(self, e, o, e["a"])
        raise Unsupported("call of %s" % c)

    def opcall(self, e, lval=False):
        op = e["op"]
        a = e["a"]
        o = self.lv(a[0])
        if isinstance(o, Cell) and not isinstance(o.v, Poly):
            o = o.v
            if isinstance(o, (Ptr, SymPtr)):
                o = self.deref(o)
        if o is NULL:
            raise Abort("null pointer used")
        f = self.P.callee(e)
        if f is not None and f.get("body") and isinstance(o, Obj):
            if f.get("cls"):
                r = self.run(self.bind(f, a[1:], o))
            else:
                r = self.run(self.bind(f, a, None))
        else:
            key = e.get("callee", "op" + op)
            m = self.models.get(key) or self.models.get("opcall")
            if not m:
                raise Unsupported("operator " + key)
            r = m(self, e, o, a[1:])
        if lval:
            return r
        return self.get(r) if isinstance(r, (Cell, Elem)) else r

    def ctor(self, e):
        cls = e["cls"]
        if cls in ("mfem::Array", "mfem::Array2D", "std::vector"):
            cls = ty(e.get("t", cls))[0]
        if cls in IGNORED_CLASSES:
            return OPAQUE
        if cls.startswith("std::allocator") or cls.startswith("std::basic_string"):
            for x in e["a"]:
                v = self.ev(x) if x is not None else None
                if isinstance(v, (str, Opaque)):
                    return v
            return "" if not e["a"] else OPAQUE
        if (e.get("copy") or e.get("move")) and len(e["a"]) >= 1:
            v = self.obj(e["a"][0])
            return self.copy(v) if isinstance(v, Obj) else v
        m = self.models.get("ctor:" + cls) or self.models.get("ctor")
        if m:
            r = m(self, e)
            if r is not None:
                return r
        raise Unsupported("construction of " + cls)

    def new(self, e):
        if "size" not in e and e.get("init") is not None:
            i = e["init"]
            while i["k"] in ("cast", "other") and (i.get("e") or i.get("a")):
                i = i["e"] if i["k"] == "cast" else i["a"][0]
            if i["k"] == "ctor":
                v = self.ctor(i)
                if isinstance(v, Obj):
                    return Ptr(v)
        if e.get("size") is not None and e["at"] in INTS | FLOATS and e.get("init") is None:
            self.ev(e["size"])
            return DPtr(self.newbuf("new", self.undef(self.fresh_atom("new"))), ZERO)
        raise Unsupported("new " + e["at"])

    # ------------------------------------------------------------ statements
    def stmt(self, s):
        if s is None:
            return
        self.steps += 1
        if self.steps > self.MAXSTEPS:
            raise Unsupported("too many steps")
        if s.get("l"):
            self.line = s["l"]
        k = s["k"]
        if k == "block":
            for x in s["s"]:
                self.stmt(x)
        elif k == "expr":
            self.ev(s["e"])
        elif k == "decl":
            for v in s["v"]:
                self.decl(v)
        elif k == "if":
            rest = self.ifstmt(s)
            if rest is not None and rest != ONE:
                self.guards.append(rest)
        elif k == "for":
            if s.get("init"):
                self.stmt(s["init"])
            self.loop(s)
        elif k == "while":
            self.loop(s)
        elif k == "return":
            if s["e"] is None:
                raise Return(None)
            rt = self.frames[-1].func.get("ret", "")
            if ty(rt)[2]:
                raise Return(self.lv(s["e"]))
            v = self.ev(s["e"])
            if isinstance(v, (Cell, Elem)):
                v = self.get(v)
            raise Return(v)
        elif k == "continue":
            raise Continue()
        elif k == "break":
            raise Break()
        elif k == "nop":
            pass
        elif k == "switch":
            self.switch(s)
        elif k in ("case", "default", "label"):
            self.stmt(s["s"])
        else:
            raise Unsupported("statement " + k)

    def ifstmt(self, s):
        """Returns a guard for the following statements if a gated branch ended in continue."""
        if s.get("init"):
            self.stmt(s["init"])
        if s.get("cvar"):
            self.decl(s["cvar"])
        if s.get("l"):
            self.line = s["l"]
        c = self.truth(self.boolean(self.ev(s["c"])))
        if c == ONE:
            self.stmt(s["th"])
            return None
        if c == ZERO:
            self.stmt(s["el"])
            return None
        rest = ONE
        for g, b in ((c, s["th"]), (ONE - c, s["el"])):
            if b is None:
                continue
            self.guards.append(g)
            n = len(self.guards)
            stay = ONE
            try:
                try:
                    self.stmt(b)
                except Continue:
                    stay = ZERO
                except Abort:
                    pass
                except Return as ex:
                    fr = self.frames[-1]
                    if len(self.loops) > fr.ll:
                        raise Unsupported("return out of a loop under a condition that depends on it")
                    fr.rets.append((self.guard(fr.gl), ex.v))
                    stay = ZERO
                except Break:
                    raise Unsupported("jump under a condition that depends on a loop variable")
                for x in self.guards[n:]:
                    stay = stay * x
            finally:
                del self.guards[n - 1:]
            if stay != ONE:
                rest = rest * (ONE - g * (ONE - stay))
        return T.simplify(rest)

    def switch(self, s):
        v = self.ev(s["c"])
        body = s["body"]["s"] if s["body"]["k"] == "block" else [s["body"]]
        flat = []
        for x in body:
            labs = []
            while x is not None and x["k"] in ("case", "default"):
                labs.append(x["v"] if x["k"] == "case" else None)
                x = x["s"]
            flat.append((labs, x))
        start = None
        dflt = None
        for i, (labs, x) in enumerate(flat):
            for l in labs:
                if l is None:
                    dflt = i
                    continue
                c = self.truth(self.equal(v, self.ev(l)))
                if c == ONE:
                    start = i
                    break
                if c != ZERO:
                    raise Unsupported("switch on a loop variable")
            if start is not None:
                break
        if start is None:
            start = dflt
        if start is None:
            return
        try:
            for labs, x in flat[start:]:
                self.stmt(x)
        except Break:
            pass

    def decl(self, v):
        t = v["t"]
        b, stars, ref, const = ty(t)
        fr = self.frames[-1]
        init = v.get("init")
        if v.get("static"):
            raise Unsupported("static local")
        if ref:
            fr.vars[v["id"]] = self.lv(init)
            return
        arr = re.match(r"(.*?)((\[\d+\])+)$", t)
        if arr and not stars:
            n = int(re.search(r"\[(\d+)\]$", t).group(1))
            if len(re.findall(r"\[\d+\]", t)) > 1:
                raise Unsupported("array " + t)
            a = self.fresh_atom("loc:" + v["n"])
            buf = self.newbuf(v["n"], self.undef(a))
            if init is not None:
                vals = self.ev(init)
                if isinstance(vals, list):
                    for i, x in enumerate(vals):
                        self.bwrite(buf, "set", P(i), num(x))
                    for i in range(len(vals), n):
                        self.bwrite(buf, "set", P(i), ZERO)
            fr.vars[v["id"]] = self.newcell(DPtr(buf, ZERO), v["n"], t)
            return
        if stars or b in INTS or b in FLOATS or b in self.P.enums or init is None and self.scalar(b):
            val = None
            if init is not None:
                val = self.ev(init)
                if isinstance(val, (Cell, Elem)):
                    val = self.get(val)
                if isinstance(val, Poly) and val == ZERO and stars:
                    val = NULL
                if isinstance(val, list) and len(val) == 1:
                    val = val[0]
                if isinstance(val, Poly) and b in INTS and not stars and is_fl(init.get("t", "")):
                    val = self.fn("int", val)
            fr.vars[v["id"]] = self.newcell(val, v["n"], t)
            return
        if init is None:
            raise Unsupported("declaration of " + t)
        self.decl_name = v["n"]
        val = self.ev(init)
        self.decl_name = None
        if isinstance(val, Cell):
            val = val.v
        if isinstance(val, Obj):
            i = init
            while i["k"] in ("cast", "other") and (i.get("e") or i.get("a")):
                i = i["e"] if i["k"] == "cast" else i["a"][0]
            if i["k"] not in ("ctor", "mcall", "opcall", "call"):
                val = self.copy(val)
            fr.vars[v["id"]] = val
        else:
            fr.vars[v["id"]] = self.newcell(val, v["n"], t)

    def scalar(self, b):
        return b in ("mfem::Geometry::Type", "mfem::Type") or b.endswith("Type")

    # ------------------------------------------------------------ loops
    def loop(self, s):
        body, cond = s["body"], s["c"]
        iv = self.induction(s)
        if iv is None:
            return self.unroll(s)
        cell, step, lo, hi, incl = iv
        N = T.simplify(self.norm(hi - lo + (1 if incl else 0)))
        if step == -1:
            N = T.simplify(self.norm(lo - hi + (1 if incl else 0)))
        elif step != 1:
            return self.unroll(s)
        c = N.const()
        if c is not None:
            if c <= 12:
                return self.unroll(s)
        lv = [a for a in T.atoms_in(N) if a.op in ("fv", "bv", "max", "min")]
        guard = None
        if lv:
            # bounds that depend on an outer loop variable: full range and a guard
            hi2 = hi + (1 if incl else 0)
            if step != 1:
                raise Unsupported("downward triangular loop")
            top = self.upper(hi2)
            bot = self.bottom(lo)
            rng = T.simplify(top - bot)
            t = T.fresh_fv(rng, cell.name)
            x = bot + P(t)
            guard = self.geq(x - lo) * self.geq(hi2 - 1 - x)
            final = None
        else:
            t = T.fresh_fv(N, cell.name)
            x = lo + P(t) if step == 1 else lo - P(t)
            rng = N
            final = lo + N if step == 1 else lo - N
        # variables that count along
        along = []
        for part in commas(s["inc"]) if s["k"] == "for" and s.get("inc") else []:
            q = strip(part)
            tgt = q.get("e") or q.get("x")
            if q["k"] not in ("un", "assign") or tgt is None or varkey(strip(tgt)) is None or self.is_cell(tgt, cell):
                continue
            c2 = self.lv(strip(tgt))
            st = self.stepof(s, varkey(strip(tgt)))
            v0 = self.get(c2) if isinstance(c2, Cell) and isinstance(c2.v, Poly) and is_int(strip(tgt)["t"]) else None
            if st is not None and isinstance(v0, Poly) and not any(c2 is y[0] for y in along):
                along.append((c2, v0 + P(st) * (x - lo) * step, None if final is None else v0 + P(st) * N))
        self.summarise(s, cell, t, x, rng, guard, along)
        for c2, _, v in [(cell, None, final)] + along:
            self.cset_raw(c2, POISON if v is None else v)

    def cset_raw(self, c, v):
        for L in reversed(self.loops):
            if L.depth <= c.ld:
                break
            L.wcells.add(c)
        o = c.v
        c.v = v
        self.written.add(c)
        self.log(lambda: setattr(c, "v", o))

    def upper(self, p):
        """upper bound of an int expression without loop variables"""
        for _ in range(20):
            for mo, c in p.m.items():
                for a, e in mo:
                    if a.op in ("max", "min"):
                        u, v = subst(p, {a: T.open_poly(a.args[0])}), subst(p, {a: T.open_poly(a.args[1])})
                        if (a.op == "min") == (c > 0):
                            # either bound is valid: prefer one without loop variables
                            return self.upper(u) if not self.loopvars(u) else self.upper(v)
                        x, y = self.upper(u), self.upper(v)
                        if T.nonneg(x - y):
                            return x
                        if T.nonneg(y - x):
                            return y
                        raise Unsupported("loop bound")
                    if a.op in ("fv", "bv"):
                        if e != 1:
                            raise Unsupported("loop bound")
                        if len(mo) > 1 and not all(T.size_atom(b) for b, _ in mo if b is not a):
                            raise Unsupported("loop bound")
                        p = subst(p, {a: (a.args[1] - 1) if c > 0 else ZERO}) if self.samesign(p, a) else None
                        if p is None:
                            raise Unsupported("loop bound")
                        break
                else:
                    continue
                break
            else:
                return p
        raise Unsupported("loop bound")

    def samesign(self, p, a):
        s = {c > 0 for mo, c in p.m.items() for b, e in mo if b is a}
        return len(s) == 1

    def bottom(self, p):
        if not [a for a in T.atoms_in(p) if a.op in ("fv", "bv", "max", "min")]:
            return p
        if T.nonneg(p):
            return ZERO
        for mo, c in p.m.items():
            for a, e in mo:
                if a.op == "max" and c > 0 and len(mo) == 1:
                    for z in (0, 1):
                        u = subst(p, {a: T.open_poly(a.args[z])})
                        if T.nonneg(u) or u == ZERO:
                            return ZERO
        raise Unsupported("loop start")

    def induction(self, s):
        """(cell, step, lo, hi, inclusive) of a counting loop, or None"""
        c = strip(s["c"]) if s["c"] else None
        if c is None:
            return None
        if c["k"] != "bin" or c["op"] not in ("<", "<=", "!=", ">", ">="):
            return None
        for x, y, op in ((c["x"], c["y"], c["op"]), (c["y"], c["x"], {"<": ">", ">": "<", "<=": ">=", ">=": "<=", "!=": "!="}[c["op"]])):
            x = strip(x)
            if varkey(x) is None or not is_int(x["t"]):
                continue
            step = self.stepof(s, varkey(x))
            if step is None:
                continue
            if (step > 0) != (op in ("<", "<=")) and op != "!=":
                continue
            cell = self.lv(x)
            if not isinstance(cell, Cell):
                return None
            # the bound must not change in the loop
            if self.assigned(s, y):
                return None
            lo = self.get(cell)
            hi = self.ev(y)
            if not isinstance(lo, Poly) or not isinstance(hi, Poly):
                return None
            return cell, step, lo, hi, op in ("<=", ">=")
        return None

    def stepof(self, s, vid):
        incs = []

        def scan(e, top):
            for z in walk(e):
                if z["k"] == "un" and z["op"] in ("++", "--") and isvar(z["e"], vid):
                    incs.append((z, 1 if z["op"] == "++" else -1, z is strip(e) and top))
                elif z["k"] == "assign" and isvar(z["x"], vid):
                    y = strip(z["y"])
                    st = None
                    if z["op"] in ("+=", "-=") and y["k"] == "int":
                        st = int(y["v"]) * (1 if z["op"] == "+=" else -1)
                    elif z["op"] == "=" and y["k"] == "bin" and y["op"] in ("+", "-") and isvar(y["x"], vid) and strip(y["y"])["k"] == "int":
                        st = int(strip(y["y"])["v"]) * (1 if y["op"] == "+" else -1)
                    incs.append((z, st, z is strip(e) and top))
                elif z["k"] == "un" and z["op"] == "&" and isvar(z["e"], vid):
                    incs.append((z, None, False))
        if s["k"] == "for" and s["inc"]:
            for part in commas(s["inc"]):
                scan(part, True)
        tops = set()
        if s["k"] == "while" or not s.get("inc"):
            b = s["body"]
            for q in (b["s"] if b["k"] == "block" else [b]):
                tops.add(id(q))
        for q in stmts(s["body"]):
            for e in stmt_exprs(q):
                if e is not None:
                    scan(e, id(q) in tops)
        if len(incs) != 1 or not incs[0][2] or incs[0][1] is None:
            return None
        if s["k"] == "while" and any(q["k"] == "continue" for q in stmts(s["body"])):
            return None
        return incs[0][1]

    def assigned(self, s, y):
        ids = {varkey(z) for z in walk(y)} - {None}
        for q in stmts(s["body"]):
            for e in stmt_exprs(q):
                if e is None:
                    continue
                for z in walk(e):
                    if z["k"] == "assign" and varkey(strip(z["x"])) in ids:
                        return True
                    if z["k"] == "un" and z["op"] in ("++", "--") and varkey(strip(z["e"])) in ids:
                        return True
        return False

    def unroll(self, s):
        for i in range(65):
            if s["c"] is not None:
                c = self.truth(self.boolean(self.ev(s["c"])))
                if c == ZERO:
                    return
                if c != ONE:
                    raise Unsupported("loop condition")
                if T.simplify(self.norm(c)).const() is None:
                    raise Unsupported("loop condition")
            if i >= 64:
                raise Unsupported("loop without a closed form")
            n = len(self.guards)
            try:
                self.stmt(s["body"])
            except Continue:
                pass
            except Break:
                return
            finally:
                del self.guards[n:]
            if s.get("inc"):
                self.ev(s["inc"])

    def summarise(self, s, ivcell, t, x, N, guard, along=()):
        depth = len(self.loops) + 1
        marked_c, marked_b = set(), set()
        for attempt in range(12):
            L = Loop()
            L.var, L.depth = t, depth
            L.wcells, L.rcells, L.wbufs, L.rbufs = set(), set(), set(), set()
            L.start = {}
            L.mcells, L.mbufs = {}, {}
            outer = self.journal
            self.journal = []
            self.loops.append(L)
            ok = False
            gl = len(self.guards)
            ndec = len(self.trace)
            try:
                # loop-carried values become markers
                for c in marked_c:
                    m = P(atom("mk", "%d" % id(c), "%d" % t.args[0], c.name))
                    if isinstance(c.v, Opaque):
                        m = Opaque(atom("stale", c.name))
                    elif isinstance(c.v, DPtr):
                        m = DPtr(c.v.buf, m)
                    L.mcells[c] = (m, c.v)
                    L.wcells.add(c)
                    o = c.v
                    c.v = m
                    self.log(lambda c=c, o=o: setattr(c, "v", o))
                for b in marked_b:
                    L.mbufs[b] = len(b.ents)
                    L.start[b] = len(b.ents) + 1
                    key = "%d" % id(b)
                    tv = "%d" % t.args[0]
                    b.ents.append(Ent("reset", None, (lambda A, key=key, tv=tv, b=b: P(atom("mkb", key, tv, b.name, A))), ONE, 0))
                    self.log(lambda b=b: b.ents.pop())
                for c2, v2 in [(ivcell, x)] + [(y[0], y[1]) for y in along]:
                    o = c2.v
                    c2.v = v2
                    self.log(lambda c2=c2, o=o: setattr(c2, "v", o))
                if guard is not None and guard != ONE:
                    self.guards.append(guard)
                try:
                    self.stmt(s["body"])
                except Continue:
                    pass
                except (Break, Return):
                    raise Unsupported("jump out of a loop")
                if s.get("inc"):
                    for part in commas(s["inc"]):
                        q = strip(part)
                        tgt = q.get("e") or q.get("x")
                        if tgt is not None and q["k"] in ("un", "assign") and any(
                                self.is_cell(tgt, c2) for c2 in [ivcell] + [y[0] for y in along]):
                            continue
                        self.ev(part)
                for c2 in [ivcell] + [y[0] for y in along]:
                    L.wcells.discard(c2)
                    L.rcells.discard(c2)
                bad_c = {c for c in (L.wcells & L.rcells) if c not in marked_c}
                bad_b = {b for b in (L.wbufs & L.rbufs) if b not in marked_b}
                ok = not bad_c and not bad_b
                if ok:
                    res_c = {c: c.v for c in L.wcells}
                    res_b = {b: list(b.ents[L.start[b]:]) for b in L.wbufs}
            finally:
                del self.guards[gl:]
                self.loops.pop()
                for u in reversed(self.journal):
                    u()
                self.journal = outer
            if ok:
                break
            for c in bad_c:
                if not isinstance(c.v, (Poly, Opaque, DPtr)) and c.v is not None:
                    raise Unsupported("loop-carried pointer or object " + c.name)
            marked_c |= bad_c
            marked_b |= bad_b
        else:
            raise Unsupported("loop analysis does not settle")
        self.finish(L, t, N, res_c, res_b)

    def is_cell(self, e, cell):
        e = strip(e)
        return varkey(e) is not None and self.lv(e) is cell

    def prefix_sum(self, p, t, N):
        """Sum of p over the iterations before t."""
        r = ZERO
        for mo, c in p.m.items():
            q = Poly({mo: c})
            if t not in T.atoms_in(q):
                r = r + T._rawmul(q, P(t))
            else:
                s_ = T.fresh_bv(N)
                q = subst(T.refresh(q)[0], {t: P(s_)})
                r = r + T._rawmul(self.geq0(P(t) - 1 - P(s_)), q)
        return T.simplify(r)

    def finish(self, L, t, N, res_c, res_b):
        """Closed forms of everything the loop body (one iteration, variable t) changes."""
        tv = "%d" % t.args[0]
        subs, plan, kinds = {}, {}, {}

        def marks(p):
            return {a for a in T.atoms_in(p) if a.op in ("mk", "mkb") and a.args[1] == tv}
        pc, pb = dict(res_c), dict(res_b)
        wrap, mcells = {}, {}
        for c, (m, x0) in L.mcells.items():
            if isinstance(m, DPtr):
                # a pointer that walks through one array: its offset
                v = pc.get(c)
                if v is not None and not (isinstance(v, DPtr) and v.buf is m.buf):
                    raise Unsupported("loop-carried pointer " + c.name)
                wrap[c] = m.buf
                mcells[c] = (m.off, x0.off)
                if v is not None:
                    pc[c] = v.off
            elif isinstance(m, Poly):
                mcells[c] = (m, x0)
        for c, v in list(pc.items()):
            if not isinstance(v, Poly):
                kinds[c] = ("obj", v)
                del pc[c]
        prog = True
        while prog and (pc or pb):
            prog = False
            for c in sorted(pc, key=lambda c: c.name):
                v = pc[c] = self.sub_marks(pc[c], subs, plan, t)
                m = mcells.get(c)
                ma = m[0].single() if m else None
                mk = marks(v)
                if mk - {ma}:
                    continue
                if m is None:
                    kinds[c] = ("temp", v)
                else:
                    x0 = m[1] if isinstance(m[1], Poly) else P(atom("undef", c.name))
                    rest = v - m[0]
                    if ma not in T.atoms_in(rest):
                        kinds[c] = ("acc", x0, rest)
                        pre = self.prefix_sum(rest, t, N)
                        subs[ma] = x0 + pre
                    elif ma not in T.atoms_in(v):
                        kinds[c] = ("temp", v)
                        d0 = P1(T.dlt(P(t)))
                        subs[ma] = d0 * x0 + (ONE - d0) * subst(v, {t: P(t) - 1})
                    else:
                        continue
                del pc[c]
                prog = True
            for b in sorted(pb, key=lambda b: b.name):
                key = "%d" % id(b)
                es = []
                others = set()
                for e in pb[b]:
                    if e.kind != "reset":
                        e = Ent(e.kind, *together([self.sub_marks(q, subs, plan, t, False) for q in (e.addr, e.val, e.g)]), e.line)
                        for q in (e.addr, e.val, e.g):
                            others |= {a.args[0] if a.op == "mkb" else a for a in marks(q)}
                    es.append(e)
                pb[b] = es
                if others - {key}:
                    # content of another array, not written before by this loop: that before the loop
                    free = {}
                    for b2, es2 in pb.items():
                        if b2 is not b and not any(e.kind == "reset" or marks(e.addr) or marks(e.g) for e in es2):
                            free["%d" % id(b2)] = b2
                    if not (others - {key}) & set(free):
                        continue

                    def fn(a):
                        if a.op == "mkb" and a.args[1] == tv and a.args[0] in free and not marks(a.args[3]):
                            b2 = free[a.args[0]]
                            if self.untouched(pb[b2], a.args[3], t, N):
                                return self.read_before(b2, a.args[3])
                        return None
                    new = []
                    for e in es:
                        if e.kind != "reset":
                            e = Ent(e.kind, *together([T.replace(q, fn) if marks(q) else q for q in (e.addr, e.val, e.g)]), e.line)
                        new.append(e)
                    if any(marks(q1) != marks(q2) for e1, e2 in zip(es, new) if e1.kind != "reset"
                           for q1, q2 in ((e1.addr, e2.addr), (e1.val, e2.val), (e1.g, e2.g))):
                        pb[b] = new
                        prog = True
                    continue
                if others:
                    es = self.resolve_self(b, es, t, N)
                    if es is None:
                        continue
                plan[key] = self.bufplan(b, es, t, N)
                del pb[b]
                prog = True
        if pc or pb:
            if DBG:
                for k in list(pc) + list(pb):
                    print("CARRIED", k.name, t, N, k in pc, [str(marks(q))[:200] for e in pb.get(k, []) for q in (e.addr, e.val, e.g)])
                for b in pb:
                    for en in pb[b]:
                        print("    ", en.kind, en.line, str(en.addr)[:150], "|", str(en.val), "|", str(en.g)[:150])
            raise Unsupported("loop-carried value without a closed form: %s" %
                              ", ".join([c.name for c in pc] + [b.name for b in pb]))
        for c, k in kinds.items():
            if k[0] == "obj":
                v = k[1]
                if self.depends(v, t):
                    v = POISON
                self.cset_raw(c, v)
            else:
                if k[0] == "temp":
                    v = T.simplify(subst(k[1], {t: N - 1}))
                else:
                    v = T.simplify(k[1] + T.sum_over(k[2], t, T.fresh_bv(N), N))
                self.cset_raw(c, DPtr(wrap[c], v) if c in wrap else v)
        for b in res_b:
            for e in plan["%d" % id(b)]["final"]:
                self.bappend(b, e)

    def depends(self, v, t):
        if isinstance(v, DPtr):
            return t in T.atoms_in(v.off) or v.buf.ld > len(self.loops)
        if isinstance(v, SymPtr):
            return t in T.atoms_in(P(v.a))
        if isinstance(v, Buf):
            return v.ld > len(self.loops)
        if isinstance(v, Opaque) and v.a is not None:
            return t in T.atoms_in(P(v.a))
        if isinstance(v, Ptr) and isinstance(v.to, (Cell, Obj)):
            return v.to.ld > len(self.loops)
        return False

    def geq0(self, p):
        r = T.ge(p)
        return P(r) if isinstance(r, Atom) else r

    def sub_marks(self, p, subs, plan, t, simp=True):
        """Replace markers by their closed forms."""
        tv = "%d" % t.args[0]

        def fn(a):
            if a.op == "mk" and a in subs:
                return T.refresh(subs[a])[0]
            if a.op == "mkb" and a.args[1] == tv and a.args[0] in plan:
                A = T.replace(a.args[3], fn)
                if any(x.op in ("mkb", "mk") and x.args[1] == tv for x in T.atoms_in(A)):
                    return None
                fs = {x: T.fresh_fv(x.args[1], "b") for x in A.bvs}
                r = plan[a.args[0]]["at"](subst(A, {x: P(f) for x, f in fs.items()}))
                return subst(r, {f: P(x) for x, f in fs.items()}) if fs else r
            return None
        if not any(a.op in ("mk", "mkb") and a.args[1] == tv for a in T.atoms_in(p)):
            return p
        p = T.replace(p, fn)
        return T.simplify(p) if simp else p

    def resolve_self(self, b, es, t, N):
        """Entries that read their own buffer's content from the start of the iteration."""
        key, tv = "%d" % id(b), "%d" % t.args[0]
        out = []
        for i, e in enumerate(es):
            if e.kind == "reset":
                out.append(e)
                continue
            ad, va, g = e.addr, e.val, e.g
            for _ in range(4):
                ms = {}
                for a in T.atoms_in(va) | T.atoms_in(ad) | T.atoms_in(g):
                    if a.op == "mkb" and a.args[0] == key and a.args[1] == tv:
                        A = a.args[3]
                        if self.untouched(es, A, t, N):
                            ms[a] = True
                        elif e.kind == "set" and A == ad and a in [x for mo in va.m for x, _ in mo] and \
                                a not in T.atoms_in(ad) | T.atoms_in(g):
                            # x = x + d : an addition
                            rest = va - P(a)
                            if a in T.atoms_in(rest):
                                return None
                            e = Ent("add", ad, rest * g, ONE, e.line)
                            va, g = e.val, ONE
                        else:
                            return None
                if not ms:
                    break
                f = lambda a: self.read_before(b, a.args[3]) if a in ms else None
                ad, va, g = together([T.replace(ad, f), T.replace(va, f), T.replace(g, f)])
            if any(a.op == "mkb" and a.args[0] == key and a.args[1] == tv for a in T.atoms_in(va) | T.atoms_in(ad) | T.atoms_in(g)):
                return None
            out.append(Ent(e.kind, ad, va, g, e.line))
        return out

    def read_before(self, b, A):
        return self.bread(b, A)

    def untouched(self, es, A, t, N):
        """No earlier iteration writes address A (an address of iteration t)."""
        s_ = T.fresh_fv(N, "s")
        for e in es:
            if e.kind == "reset":
                return False
            ad, g = T.refresh(e.addr, [e.g])
            ad, g = subst(ad, {t: P(s_)}), subst(g, {t: P(s_)})
            q = T.simplify(T._rawmul(T._rawmul(P1(T.dlt(ad - A)), g), self.geq0(P(t) - 1 - P(s_))))
            if q != ZERO:
                return False
        return True

    def bufplan(self, b, es, t, N):
        """How the entries of one iteration add up over the loop. Returns {final: entries, at: A -> content at the
        start of iteration t}."""
        bv = T.fresh_bv(N)

        def before(A):
            return self.bread(b, A)

        def over(es, extra=None):
            x = T.fresh_bv(N)
            out = []
            for e in es:
                ad, va, g = T.refresh(e.addr, [e.val, e.g])
                s = {t: P(x)}
                dep = t in T.atoms_in(ad) or t in T.atoms_in(va) or t in T.atoms_in(g)
                ad2, va2, g2 = subst(ad, s), subst(va, s), subst(g, s)
                if not dep and extra is None:
                    if e.kind == "add":
                        out.append(Ent("add", ad, va * N, ONE, e.line))
                    else:
                        out.append(Ent("set", ad, va, g, e.line))
                    continue
                if e.kind == "add":
                    # monomials free of the variable must still be summed
                    va2 = mark_sum(va2, ad2, x, N)
                if extra is not None:
                    w = extra(x)
                    if e.kind == "add":
                        va2 = T._rawmul(w, subst(va, s))
                    else:
                        g2 = T._rawmul(w, g2)
                out.append(Ent(e.kind, ad2, va2, g2, e.line))
            return out

        def at_from(entries):
            def at(A):
                tmp = Buf(b.name, before, 0, 0)
                tmp.ents = entries()
                return self.bread_plain(tmp, A)
            return at

        if any(e.kind == "reset" for e in es):
            # a resize inside the loop: nothing survives from one iteration to the next
            k = max(i for i, e in enumerate(es) if e.kind == "reset")
            tail = es[k + 1:]
            fin = [es[k]] + [Ent(e.kind, *[subst(q, {t: N - 1}) for q in (e.addr, e.val, e.g)], e.line) for e in tail]
            return dict(final=fin, at=lambda A: (_ for _ in ()).throw(Unsupported("content after resize in loop")))
        adds = [e for e in es if e.kind == "add"]
        if len(adds) == len(es):
            return dict(final=over(es), at=at_from(lambda: over(es, lambda x: self.geq0(P(t) - 1 - P(x)))))
        # sets: does each iteration rewrite the same addresses?
        if all(t not in T.atoms_in(e.addr) and t not in T.atoms_in(e.g) for e in es if e.kind == "set") and \
                all(self.covered(es, i) for i, e in enumerate(es) if e.kind == "add"):
            mk = lambda v: [Ent(e.kind, *[subst(q, {t: v}) for q in (e.addr, e.val, e.g)], e.line) for e in es]

            def at(A):
                d0 = P1(T.dlt(P(t)))
                tmp = Buf(b.name, before, 0, 0)
                tmp.ents = mk(P(t) - 1)
                return d0 * before(A) + (ONE - d0) * self.bread_plain(tmp, A)
            return dict(final=mk(N - 1), at=at)
        # different iterations touch different addresses
        s_ = T.fresh_fv(N, "s")
        for e1 in es:
            for e2 in es:
                if e1.kind == "add" and e2.kind == "add":
                    continue
                a1, g1 = T.refresh(e1.addr, [e1.g])
                a2, g2 = T.refresh(e2.addr, [e2.g])
                a2, g2 = subst(a2, {t: P(s_)}), subst(g2, {t: P(s_)})
                q0 = T._rawmul(T._rawmul(P1(T.dlt(a1 - a2)), g1), g2)
                for w in (P(t) - 1 - P(s_), P(s_) - 1 - P(t)):
                    if T.simplify(T._rawmul(q0, self.geq0(w))) != ZERO:
                        # disjoint sets and adds?
                        return self.mixed(b, es, t, N)
        return dict(final=over(es), at=at_from(lambda: over(es, lambda x: self.geq0(P(t) - 1 - P(x)))))

    def mixed(self, b, es, t, N):
        raise Unsupported("array %s: writes of different iterations overlap" % b.name)

    def covered(self, es, i):
        """Is the address of add entry i always set earlier in the same iteration?"""
        e = es[i]
        ad, g = T.refresh(e.addr, [e.g])
        # free the bound variables of the address
        fs = {v: P(T.fresh_fv(v.args[1], "c")) for v in ad.bvs}
        A = subst(ad, fs)
        rem = ONE
        for e2 in es[:i]:
            if e2.kind == "set":
                a2, g2 = T.refresh(e2.addr, [e2.g])
                occ = T.simplify(T._rawmul(P1(T.dlt(a2 - A)), g2))
                rem = T.simplify(rem * (ONE - occ))
                if rem == ZERO:
                    return True
        return False

    def bread_plain(self, b, A):
        ls = self.loops
        self.loops = []
        try:
            return self.bread(b, A)
        finally:
            self.loops = ls


def P1(x):
    return P(x) if isinstance(x, Atom) else x


def together(ps):
    """Simplify the parts of one entry; a bound variable that several of them share belongs to the entry."""
    n = {}
    for p in ps:
        for v in p.bvs:
            n[v] = n.get(v, 0) + 1
    fs = {v: P(T.fresh_fv(v.args[1], "b")) for v, k in n.items() if k > 1}
    back = {f.single(): P(v) for v, f in fs.items()}
    return [subst(T.simplify(subst(p, fs)), back) for p in ps] if fs else [T.simplify(p) for p in ps]


def mark_sum(va, ad, x, N):
    """va is summed over x implicitly where x occurs; where it does not occur and the address does not either,
    it counts N times."""
    if x in T.atoms_in(ad):
        return va
    r = ZERO
    for mo, c in va.m.items():
        p = Poly({mo: c})
        r = r + (p if x in p.bvs else p * N)
    return r


def num(v):
    if isinstance(v, Poly):
        return v
    if v is None:
        raise Unsupported("no value")
    raise Unsupported("number expected, got %r" % (v,))


def divide(x, y):
    """x / y when it divides exactly as polynomials (single monomial y)"""
    if len(y.m) == 1:
        (mo, c), = y.m.items()
        if not mo:
            return x * (Fr(1) / c) if all((Fr(k) / c).denominator == 1 for k in x.m.values()) else None
        r = {}
        for m2, c2 in x.m.items():
            d = T.divisible(m2, mo)
            if d is None or (Fr(c2) / c).denominator != 1:
                return None
            r[d] = Fr(c2) / c
        return Poly(r)
    return None


def is_fl(t):
    b, stars, ref, const = ty(t)
    return not stars and b in FLOATS


def varkey(e):
    """identity of a local variable or own member"""
    if e["k"] == "ref" and e["dk"] in ("local", "param"):
        return e["id"]
    if e["k"] == "mem" and e["dk"] != "smember" and (e["b"] is None or e["b"]["k"] == "this"):
        return "this." + e["n"]
    return None


def isvar(e, vid):
    return varkey(strip(e)) == vid


def commas(e):
    e = strip(e)
    if e["k"] == "bin" and e["op"] == ",":
        return commas(e["x"]) + commas(e["y"])
    return [e]


def explore(make, limit=64):
    """make(script) -> result of one run, given an Interp via make.interp; returns [(trace, result)].
    make receives the list of decisions known from the start and returns (interp, thunk)."""
    out = []
    todo = [[]]
    while todo:
        script = todo.pop()
        for attempt in range(40):
            I, thunk = make(script)
            try:
                r = thunk()
            except Restart:
                for a in I.alts:
                    if a not in todo:
                        todo.append(a)
                script = list(I.trace)
                continue
            except Abort as ex:
                r = None
            for a in I.alts:
                if a not in todo:
                    todo.append(a)
            out.append((I, r))
            break
        else:
            raise Unsupported("decisions do not settle")
        if len(out) + len(todo) > limit:
            raise Unsupported("too many configurations")
    return out
