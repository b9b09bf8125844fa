"""Symbolic walk of a function: values are terms over its inputs, what it does to anything else is logged as effects.

No sizes or inputs are fixed and nothing is solved: conditions that are not constants fork the walk (one path each way, a term
decided once stays decided), loops with a constant number of rounds are unrolled, any other loop is walked for one generic
round. A pointer and what it points to are the same term. Terms are nested tuples:
  ("int",n) ("str",s) ("par",name) ("fld",object,name) ("idx",array,i..) ("call",name,receiver,args..) ("out",name,k,..) ...
"""
import re
from fractions import Fraction as Fr
from . import ir

TRUE, FALSE, NULLT = ("int", 1), ("int", 0), ("null",)
WRAP = ("MaterializeTemporaryExpr", "ExprWithCleanups", "CXXBindTemporaryExpr", "ParenExpr", "CXXDefaultArgExpr",
        "CXXDefaultInitExpr", "ConstantExpr", "CXXFunctionalCastExpr", "SubstNonTypeTemplateParmExpr", "CXXStdInitializerListExpr")


class Undecided(Exception):
    pass


class Abort(Exception):
    pass


class Ret(Exception):
    def __init__(self, v):
        self.v = v


class Jump(Exception):
    def __init__(self, k):
        self.k = k


class Fork(Exception):
    pass


class Frame:
    def __init__(self, f, this):
        self.f, self.this, self.vars = f, this, {}


def I(n):
    return ("int", int(n))


def S(s):
    return ("str", s)


def is_const(t):
    return t[0] in ("int", "str", "null", "flt", "func", "enum")


def show(t, d=0):
    if not isinstance(t, tuple):
        return str(t)
    if d > 7:
        return ".."
    o, a = t[0], t[1:]
    if o in ("int", "par", "str", "var", "enum", "func", "glob"):
        return str(a[0]) if o != "var" else str(a[1])
    if o == "flt":
        return str(float(a[0]))
    if o == "null":
        return "NULL"
    if o == "this":
        return "this"
    if o == "fld":
        return a[1] if a[0] == ("this",) else "%s.%s" % (show(a[0], d + 1), a[1])
    if o == "idx":
        return "%s[%s]" % (show(a[0], d + 1), ", ".join(show(x, d + 1) for x in a[1:]))
    if o == "call":
        r = show(a[1], d + 1) + "." if a[1] is not None else ""
        return "%s%s(%s)" % (r, a[0].split("::")[-1], ", ".join(show(x, d + 1) for x in a[2:]))
    if o == "out":
        return "%s:out%s(%s)" % (a[0].split("::")[-1], a[1], ", ".join(show(x, d + 1) for x in a[2:] if x))
    return "%s(%s)" % (o, ", ".join(show(x, d + 1) for x in a))


def leaves(t, seen=None):
    """All sub-terms, the term itself first."""
    if isinstance(t, tuple):
        yield t
        for x in t[1:]:
            if isinstance(x, tuple):
                yield from leaves(x)


class Event:
    def __init__(self, kind, name, recv, args, line, f, e=None, consts=None):
        self.kind, self.name, self.recv, self.args, self.line, self.f, self.e = kind, name, recv, args, line, f, e
        self.short = name.split("::")[-1] if name else ""
        self.consts = consts

    def where(self):
        return "%s:%s" % (self.f["file"], self.line)

    def __repr__(self):
        if self.kind == "write":
            return "%s := %s" % (show(self.recv), show(self.args[0]))
        r = show(self.recv) + "." if self.recv is not None else ""
        return "%s%s(%s)" % (r, self.short, ", ".join(show(x) for x in self.args))


class Walk:
    MAXSTEPS = 20000

    def __init__(self, prog, script=(), inline=lambda f, e: True, keep=False):
        self.P, self.script, self.inline = prog, list(script), inline
        self.used = []          # decisions taken: (term, value)
        self.store = {}         # address -> term
        self.size = {}          # address -> term
        self.fill = {}
        self.kidsof = {}        # address -> set of stored element addresses
        self.events = []
        self.frames = []
        self.n = 0
        self.steps = 0
        self.line = 0
        self.local = set()      # addresses of local objects
        self.types = {}
        self.forced = set()     # decisions with no other way
        self.claims = []        # assertions passed
        self.spans = {}         # value of a loop's counter -> (first, last) value it takes, in either order
        self.fresh_fields = set()   # objects whose fields start undefined

    # ---------------------------------------------------------------- store
    def new(self, what, name):
        self.n += 1
        return ("var", self.n, name)

    def root(self, a):
        while a[0] in ("fld", "idx"):
            a = a[1]
        return a

    def is_local(self, a):
        return self.root(a) in self.local

    def drop(self, a):
        """Forget everything stored below an address."""
        for k in list(self.kidsof.get(a, ())):
            self.store.pop(k, None)
            self.drop(k)
        self.kidsof.pop(a, None)
        self.fill.pop(a, None)

    def write(self, a, v):
        self.drop(a)
        self.store[a] = v
        x = a
        while x[0] in ("fld", "idx"):
            self.kidsof.setdefault(x[1], set()).add(x)
            x = x[1]
        if not self.is_local(a):
            ev = Event("write", None, a, [v], self.line, self.frames[-1].f)
            if a[0] == "idx" and len(a) == 3 and a[2][0] == "int":
                n = self.arrsize(a[1])
                ev.overrun = n is not None and n[0] == "int" and not 0 <= a[2][1] < n[1]
            self.events.append(ev)

    def put(self, a, v):
        self.store[a] = v
        x = a
        while x[0] in ("fld", "idx"):
            self.kidsof.setdefault(x[1], set()).add(x)
            x = x[1]

    def read(self, a):
        if a in self.store:
            return self.store[a]
        if a[0] == "idx":
            b = a[1]
            if b in self.fill:
                return self.fill[b]
            if b in self.store and self.store[b] != b:
                return self.read(("idx", self.store[b]) + a[2:])
        elif a[0] == "fld":
            b = a[1]
            if b in self.store and self.store[b] != b:
                return self.read(("fld", self.store[b], a[2]))
        return a

    def snap(self, a):
        """What an object holds now, as a term."""
        if a in self.store:
            v = self.store[a]
            return self.snap(v) if v != a and v in self.local else v
        ks = self.kidsof.get(a)
        if ks and a[0] in ("var", "fld", "idx"):
            parts = sorted(((k, self.snap(k)) for k in ks if k[1] == a), key=repr)
            if parts:
                return ("cont", a) + tuple(("el",) + k[2:] + (v,) for k, v in parts)
        return a

    def arrsize(self, a):
        if a in self.size:
            return self.size[a]
        v = self.store.get(a)
        if v is not None and v != a:
            return self.arrsize(v)
        return None

    def copy_to(self, dst, src):
        """Value copy of an object."""
        self.drop(dst)
        self.store.pop(dst, None)
        s = self.arrsize(src)
        ks = [k for k in self.kidsof.get(src, ()) if k[1] == src]
        fl = self.fill.get(src)
        cont = self.store.get(src)
        n0 = len(self.events)
        if cont is None and not ks and fl is None:
            self.write(dst, src)
        elif cont is not None:
            self.write(dst, cont)
        for k in ks:
            self.write((k[0], dst) + k[2:], self.store.get(k, k))
        if fl is not None:
            self.fill[dst] = fl
        if s is not None:
            self.size[dst] = s
        if not self.is_local(dst) and len(self.events) == n0:
            self.events.append(Event("write", None, dst, [self.snap(src)], self.line, self.frames[-1].f))

    # ---------------------------------------------------------------- decisions
    def decide(self, t):
        neg = False
        while t[0] == "not":
            t, neg = t[1], not neg
        if t[0] == "int":
            v = t[1] != 0
        elif t[0] == "null":
            v = False
        elif t[0] in ("str", "func", "new", "flt"):
            v = True
        else:
            for k, b in self.used:
                if k == t:
                    v = b
                    break
            else:
                v = self.assumed(t)
                if v is None:
                    n = len(self.used)
                    if n < len(self.script):
                        v = self.script[n]
                    else:
                        v = True
                self.used.append((t, v))
        return v != neg

    def assumed(self, t):
        return None

    def notnull(self, t):
        """Used as a condition."""
        return t

    # ---------------------------------------------------------------- expressions
    def ev(self, e):
        self.steps += 1
        if self.steps > self.MAXSTEPS:
            raise Undecided("too many steps")
        k = e["k"]
        if k in ("int", "char"):
            try:
                return I(int(e["v"]))
            except (ValueError, TypeError):
                return ("char", str(e.get("v")))
        if k == "float":
            f = Fr(str(e["v"]))
            return ("flt", f)
        if k == "bool":
            return TRUE if e["v"] else FALSE
        if k == "str":
            return S(str(e["v"]))
        if k in ("null", "zero"):
            return NULLT if k == "null" else I(0)
        if k == "this":
            return self.frames[-1].this
        if k == "cast":
            v = self.ev(e["e"])
            if v == I(0) and "*" in e.get("t", ""):
                return NULLT
            return v
        if k == "ref" and e["dk"] == "enum":
            return self.enum(e)
        if k == "ref" and e["dk"] == "func":
            return ("func", e.get("callee") or e.get("q") or e["n"])
        if k in ("ref", "mem", "sub"):
            a = self.lv(e)
            return self.read(a)
        if k == "un":
            return self.unary(e)
        if k == "bin":
            return self.binary(e)
        if k == "assign":
            return self.read(self.assign(e))
        if k == "cond":
            c = self.ev(e["c"])
            return self.ev(e["x"] if self.decide(c) else e["y"])
        if k == "call":
            return self.call(e)
        if k == "mcall":
            return self.mcall(e)
        if k == "opcall":
            return self.opcall(e)
        if k in ("ctor", "uctor"):
            return self.ctor(e)
        if k == "new":
            return self.new_(e)
        if k == "delete":
            v = self.ev(e["e"])
            self.events.append(Event("delete", "delete", None, [v], e.get("l", self.line), self.frames[-1].f, e))
            return None
        if k == "ilist":
            return ("list",) + tuple(self.val(x) for x in e["a"])
        if k == "lambda":
            return ("lambda", e.get("l", 0))
        if k == "sizeof":
            return ("sizeof", e.get("st", ""))
        if k == "throw":
            raise Abort("throw")
        if k == "other" and len(e.get("a", [])) == 1 and e["a"][0] is not None:
            return self.ev(e["a"][0])
        if k == "other":
            return ("other", e.get("cls_", ""), self.fresh())
        raise Undecided("expression " + k)

    def fresh(self):
        self.n += 1
        return self.n

    def val(self, x):
        """Value of an argument: content of a local object, term of anything else."""
        v = self.ev(x)
        return self.snap(v) if isinstance(v, tuple) and v[0] in ("var", "fld", "idx") else v

    def enum(self, e):
        q = e.get("q", e["n"])
        for en in self.P.enums.values():
            for c in en.get("values", en.get("c", [])):
                if (c.get("q") or c.get("n")) == q and "v" in c:
                    return I(int(c["v"]))
        if "cv" in e:
            return I(int(e["cv"]))
        return ("enum", q)

    def lv(self, e):
        """Address of an lvalue."""
        k = e["k"]
        if k == "ref":
            if e["dk"] in ("local", "param", "slocal"):
                v = self.frames[-1].vars.get(e["id"])
                if v is None:
                    for fr in reversed(self.frames):
                        if e["id"] in fr.vars:
                            return fr.vars[e["id"]]
                    return ("glob", e["n"])
                return v
            if e["dk"] == "enum":
                return self.enum(e)
            if e["dk"] == "func":
                return ("func", e.get("callee") or e["n"])
            return self.glob(e)
        if k == "mem":
            if e["dk"] == "smember":
                return self.glob(e)
            b = e["b"]
            if b is None or b["k"] == "this":
                o = self.frames[-1].this
            else:
                o = self.ev(b) if e.get("arrow") else self.lv(b)
            return ("fld", o, e["n"])
        if k == "sub":
            return ("idx", self.ev(e["x"]), self.ev(e["y"]))
        if k == "un" and e["op"] == "*":
            return self.ev(e["e"])
        if k == "un" and e["op"] in ("++", "--"):
            self.unary(e)
            return self.lv(e["e"])
        if k == "assign":
            return self.assign(e)
        if k == "cast":
            return self.lv(e["e"])
        if k == "cond":
            c = self.ev(e["c"])
            return self.lv(e["x"] if self.decide(c) else e["y"])
        if k == "opcall":
            return self.opcall(e, True)
        if k == "other" and len(e.get("a", [])) == 1 and e["a"][0] is not None:
            return self.lv(e["a"][0])
        return self.ev(e)

    def glob(self, e):
        q = e.get("q", e["n"])
        g = self.P.globals.get(q)
        a = ("glob", q)
        if g and g.get("const") and g.get("init") and a not in self.store:
            try:
                v = self.ev(g["init"])
                if is_const(v):
                    self.store[a] = v
            except Undecided:
                pass
        return a

    def unary(self, e):
        op = e["op"]
        if op == "&":
            return self.lv(e["e"])
        if op == "*":
            return self.read(self.ev(e["e"]))
        if op in ("++", "--"):
            a = self.lv(e["e"])
            old = self.read(a)
            new = self.arith(op[0], old, I(1))
            self.write(a, new)
            return old if e.get("post") else new
        v = self.ev(e["e"])
        if op == "!":
            if v[0] == "int":
                return I(not v[1])
            if v == NULLT:
                return TRUE
            return v[1] if v[0] == "not" else ("not", v)
        if op == "-":
            if v[0] == "int":
                return I(-v[1])
            if v[0] == "flt":
                return ("flt", -v[1])
            return ("neg", v)
        if op == "+":
            return v
        return ("un" + op, v)

    def arith(self, op, x, y):
        if x[0] in ("int", "flt") and y[0] in ("int", "flt"):
            a, b = x[1], y[1]
            fl = x[0] == "flt" or y[0] == "flt"
            mk = (lambda v: ("flt", Fr(v))) if fl else I
            try:
                if op == "+":
                    return mk(a + b)
                if op == "-":
                    return mk(a - b)
                if op == "*":
                    return mk(a * b)
                if op == "/" and b != 0:
                    return mk(Fr(a) / b) if fl else I(abs(a) // abs(b) * (1 if (a < 0) == (b < 0) else -1))
                if op == "%" and b:
                    return I(a - b * int(Fr(a, b)))
                if op in ("<<", ">>", "&", "|", "^"):
                    return I({"<<": a << b, ">>": a >> b, "&": a & b, "|": a | b, "^": a ^ b}[op])
            except (TypeError, ValueError):
                pass
        if op == "+" and x[0] == "str" and y[0] == "str":
            return S(x[1] + y[1])
        if op in ("+", "-") and y == I(0):
            return x
        if op == "+" and x == I(0):
            return y
        if op in ("+", "-") and y[0] == "int" and x[0] == "+" and x[2][0] == "int":
            n = x[2][1] + (y[1] if op == "+" else -y[1])
            return x[1] if n == 0 else ("+", x[1], I(n))
        if op == "-" and y[0] == "int":
            return ("+", x, I(-y[1]))
        if op == "-" and x == y:
            return I(0)
        if op == "*" and (x == I(0) or y == I(0)):
            return I(0)
        if op == "*" and y == I(1) or op == "/" and y == I(1):
            return x
        if op == "*" and x == I(1):
            return y
        if op in ("+", "*") and repr(y) < repr(x) and x[0] != "str" and y[0] != "str" and y[0] != "int" or op in ("+", "*") and x[0] == "int":
            x, y = y, x
        return (op, x, y)

    def compare(self, op, x, y):
        num = ("int", "flt")
        if x[0] in num and y[0] in num or x[0] == "str" and y[0] == "str":
            a, b = x[1], y[1]
            return I({"==": a == b, "!=": a != b, "<": a < b, ">": a > b, "<=": a <= b, ">=": a >= b}[op])
        if op in ("==", "!="):
            if x == y:
                return I(op == "==")
            known = ("func", "str", "null", "new")
            if x[0] in known and y[0] in known or {x[0], y[0]} == {"var", "null"}:
                return I(op == "!=")
            for u, v in ((x, y), (y, x)):
                if v == NULLT:
                    r = ("not", u)
                    return r if op == "==" else u
            if repr(y) < repr(x):
                x, y = y, x
            r = ("==", x, y)
            return r if op == "==" else ("not", r)
        if op == ">":
            return ("<", y, x)
        if op == ">=":
            return ("not", ("<", x, y))
        if op == "<=":
            return ("not", ("<", y, x))
        if x == y:
            return FALSE
        return (op, x, y)

    def binary(self, e):
        op = e["op"]
        if op in ("&&", "||"):
            x = self.ev(e["x"])
            if x[0] in ("int", "null"):
                b = self.decide(x)
                if b != (op == "&&"):
                    return I(b)
                y = self.ev(e["y"])
                return y
            if not ir.has_call(e["y"]):
                y = self.ev(e["y"])
                if y[0] in ("int", "null"):
                    b = self.decide(y)
                    return x if b == (op == "&&") else I(b)
            b = self.decide(x)
            if b != (op == "&&"):
                return I(b)
            return self.ev(e["y"])
        if op == ",":
            self.ev(e["x"])
            return self.ev(e["y"])
        x, y = self.ev(e["x"]), self.ev(e["y"])
        if x is None or y is None:
            raise Undecided("value")
        if op in ("==", "!=", "<", ">", "<=", ">="):
            return self.compare(op, x, y)
        return self.arith(op, x, y)

    def assign(self, e):
        op = e["op"]
        y = self.ev(e["y"])
        a = self.lv(e["x"])
        if y is None:
            raise Undecided("assigned value")
        if op == "=":
            if y == I(0) and "*" in e["x"].get("t", ""):
                y = NULLT
            self.write(a, y)
        else:
            self.write(a, self.arith(op[:-1], self.read(a), y))
        return a

    # ---------------------------------------------------------------- calls
    def args(self, e, pt):
        """[(address or value, passed by reference to non-const)]"""
        out = []
        for i, x in enumerate(e):
            if x is None:
                continue
            t = pt[i] if i < len(pt) else ""
            ref = t.rstrip().endswith("&")
            mut = (ref and not re.match(r"const\b", t) or "*" in t and not re.match(r"const\b", t)) \
                and not t.rstrip().endswith("const &")
            if ref:
                a = self.lv(x)
                out.append((a, mut))
            else:
                v = self.ev(x)
                out.append((v, mut))
        return out

    def content(self, v):
        if isinstance(v, tuple) and v[0] in ("var", "fld", "idx", "new"):
            return self.snap(v)
        return v

    def opaque(self, name, recv, args, e, const=True, extra=()):
        vals = [self.content(v) for v, m in args]
        r = self.content(recv) if recv is not None else None
        ev = Event("call", name, r, vals, e.get("l", self.line), self.frames[-1].f, e)
        ev.recv_addr, ev.addrs = recv, [v for v, m in args]
        self.events.append(ev)
        for k, (v, m) in enumerate(args):
            if m and isinstance(v, tuple) and v[0] in ("var", "fld", "idx", "new") and self.is_local(v):
                self.drop(v)
                self.size.pop(v, None)
                self.write(v, ("out", name, k, r) + tuple(vals))
        if recv is not None and not const and isinstance(recv, tuple) and self.is_local(recv):
            self.drop(recv)
            self.size.pop(recv, None)
            self.write(recv, ("upd", name, r) + tuple(vals))
        return ("call", name, r) + tuple(vals)

    def call(self, e):
        c = e.get("callee")
        f = self.P.callee(e)
        if e.get("noreturn") or c in ("abort", "exit", "mfem::mfem_error", "__assert_fail"):
            raise Abort(c or "")
        if f is not None and f.get("body") and self.inline(f, e) and len(self.frames) < 12:
            return self.run(f, None, self.bind(f, e["a"]))
        if c is None:
            fv = self.ev(e["fn"]) if e.get("fn") else ("unknown",)
            return self.opaque("(pointer)", fv, self.args(e["a"], e.get("pt", [])), e)
        args = self.args(e["a"], e.get("pt", []))
        h = getattr(self, "m_" + c.split("::")[-1], None)
        if h:
            r = h(e, None, args)
            if r is not None:
                return r
        return self.opaque(c, None, args, e)

    def bind(self, f, es):
        out = []
        for i, p in enumerate(f["params"]):
            x = es[i] if i < len(es) and es[i] is not None else p.get("def")
            if x is None:
                raise Undecided("missing argument of " + f["name"])
            t = p["t"].rstrip()
            if t.endswith("&"):
                out.append(("ref", self.lv(x)))
            else:
                v = self.ev(x)
                out.append(("val", v))
        return out

    def run(self, f, this, bound):
        fr = Frame(f, this)
        for p, (how, v) in zip(f["params"], bound):
            if how == "ref":
                fr.vars[p["id"]] = v
            else:
                a = self.new("par", p["n"])
                self.local.add(a)
                fr.vars[p["id"]] = a
                if isinstance(v, tuple) and v[0] in ("var", "fld", "idx") and "*" not in p["t"] and \
                        (self.kidsof.get(v) or v in self.store or v in self.size):
                    self.copy_to(a, v)
                else:
                    self.write(a, v)
        self.frames.append(fr)
        line = self.line
        try:
            for i in f.get("inits", []):
                self.init(i, this)
            if f.get("body"):
                self.stmt(f["body"])
            return None
        except Ret as r:
            return r.v
        finally:
            self.frames.pop()
            self.line = line

    def init(self, i, this):
        e = i.get("e")
        if i.get("field") or i.get("n") and not i.get("base"):
            a = ("fld", this, i.get("field") or i.get("n"))
            if e is not None:
                self.init_at(a, e)
        elif i.get("base") and e is not None and e["k"] == "ctor":
            f = self.P.callee(e)
            if f is None or not f.get("body"):
                self.implicit(this, i["base"])
            elif self.inline(f, e) and len(self.frames) < 12:
                self.run(f, this, self.bind(f, e["a"]))

    def implicit(self, this, cls):
        """A constructor written by the compiler: bases, then member initialisers."""
        r = self.P.records.get(cls)
        if r is None:
            return
        for b in r["bases"]:
            b = b if isinstance(b, str) else b.get("t", b.get("n"))
            f = next((f for f in self.P.by_name.get("%s::%s" % (b, b.split("::")[-1]), []) if not f["params"] and f.get("body")), None)
            if f is not None:
                self.run(f, this, [])
            else:
                self.implicit(this, b)
        for q in r["fields"]:
            a = ("fld", this, q["n"])
            if q.get("init") is not None:
                self.init_at(a, q["init"])
            elif re.match(r"(mfem::Array|std::vector)<", q["t"]) and not q["t"].rstrip().endswith(("*", "&")):
                self.size[a] = I(0)

    def init_at(self, a, e):
        """Initialise the object at an address from an expression."""
        x = e
        while x["k"] in ("cast", "other") and (x.get("e") or len(x.get("a") or []) == 1 and x["a"][0]):
            x = x["e"] if x["k"] == "cast" else x["a"][0]
        if x["k"] == "ctor":
            return self.construct(a, x)
        v = self.ev(e)
        if isinstance(v, tuple) and v[0] in ("var", "fld", "idx") and (self.kidsof.get(v) or v in self.size):
            self.copy_to(a, v)
        else:
            self.write(a, v if v is not None else ("void",))

    def construct(self, a, e):
        cls = e.get("cls", "")
        if (e.get("copy") or e.get("move")) and e["a"]:
            self.copy_to(a, self.lv(e["a"][0]))
            return a
        if cls in ("mfem::Array", "mfem::Array2D", "std::vector", "std::map", "std::set"):
            self.drop(a)
            self.store.pop(a, None)
            av = [self.ev(x) for x in e["a"] if x is not None]
            if cls in ("mfem::Array2D",):
                if len(av) == 2:
                    self.size[a] = ("pair",) + tuple(av)
            elif cls in ("std::map", "std::set"):
                pass
            elif not av or av[0][0] == "call":
                self.size[a] = I(0)
            elif cls == "mfem::Array" and "list" not in av[0][0]:
                self.size[a] = av[0]
            elif cls == "std::vector" and av[0][0] == "int":
                self.size[a] = av[0]
                if len(av) > 1 and av[1][0] != "other" and e.get("pt", ["", ""])[1].find("allocator") != 0:
                    self.fill[a] = av[1]
            elif av[0][0] == "list":
                self.size[a] = I(len(av[0]) - 1)
                for n, x in enumerate(av[0][1:]):
                    self.write(("idx", a, I(n)), x)
            return a
        if cls.startswith("std::basic_string") or cls.endswith("::string"):
            vs = [self.ev(x) for x in e["a"] if x is not None]
            vs = [v for v in vs if v is not None and not (v[0] == "other")]
            self.write(a, vs[0] if vs else S(""))
            return a
        f = self.P.callee(e)
        if f is not None and f.get("body") and self.inline(f, e) and len(self.frames) < 12:
            self.types.setdefault(a, cls)
            self.run(f, a, self.bind(f, e["a"]))
            return a
        args = self.args(e["a"], e.get("pt", []))
        self.opaque(e.get("callee", cls), None, args, e)
        self.drop(a)
        if args:
            self.write(a, ("obj", cls) + tuple(self.content(v) for v, m in args))
        return a

    def ctor(self, e):
        cls = e.get("cls", "")
        if cls.startswith("std::basic_string") or cls.endswith("::string"):
            vs = [self.ev(x) for x in e["a"] if x is not None]
            return vs[0] if vs else S("")
        if cls.startswith("std::allocator"):
            return ("other", cls, 0)
        if (e.get("copy") or e.get("move")) and e["a"]:
            v = self.lv(e["a"][0])
            if v[0] in ("var", "fld", "idx") and self.read(v) == v:
                return v
            return self.read(v)
        a = self.new("tmp", "tmp")
        self.local.add(a)
        self.construct(a, e)
        return a

    def new_(self, e):
        self.n += 1
        a = ("new", self.n, e.get("at", ""))
        self.local.add(a)
        if e.get("size") is not None:
            self.size[a] = self.ev(e["size"])
        i = e.get("init")
        if i is not None:
            while i["k"] in ("cast", "other") and (i.get("e") or i.get("a")):
                i = i["e"] if i["k"] == "cast" else i["a"][0]
            if i["k"] == "ctor":
                self.construct(a, i)
        return a

    def mcall(self, e):
        c = e.get("callee", "?")
        ob = e["obj"]
        if ob is None or ob["k"] == "this":
            o = self.frames[-1].this
        elif e.get("arrow"):
            o = self.ev(ob)
        else:
            o = self.lv(ob)
            if not e.get("arrow") and o[0] in ("var", "fld", "idx") and o in self.store and self.store[o][0] in ("par", "new"):
                o = self.store[o] if "Ptr" in e.get("cls", "") else o
        if e.get("noreturn"):
            raise Abort(c)
        f = self.target(e, o)
        if f is not None and f.get("body") and self.inline(f, e) and len(self.frames) < 12:
            return self.run(f, o, self.bind(f, e["a"]))
        args = self.args(e["a"], e.get("pt", []))
        h = getattr(self, "m_" + c.split("::")[-1], None)
        if h:
            r = h(e, o, args)
            if r is not None:
                return r
        return self.opaque(c, o, args, e, e.get("cconst", False))

    def target(self, e, o):
        """The definition called; a virtual call resolves on the class of the walked object only."""
        if e.get("virt") and not e.get("qual"):
            cls = self.types.get(o)
            if cls is None:
                return None
            short = e["callee"].split("::")[-1]
            return self.lookup(cls, short, e.get("cty"))
        return self.P.callee(e)

    def lookup(self, cls, name, typ):
        for f in self.P.by_name.get("%s::%s" % (cls, name), []):
            if f["type"] == typ:
                return f
        for b in (self.P.records.get(cls) or {}).get("bases", []):
            f = self.lookup(b if isinstance(b, str) else b.get("t", b.get("n")), name, typ)
            if f is not None:
                return f
        return None

    # ---- containers
    ARR = ("mfem::Array", "std::vector", "mfem::Array2D", "std::map", "std::set", "mfem::Vector", "mfem::DenseMatrix")

    def m_SetSize(self, e, o, args):
        if o is None or e.get("cls") not in self.ARR:
            return None
        v = [x for x, m in args]
        if e["cls"] == "mfem::Array" and len(v) == 2:
            self.drop(o)
            self.fill[o] = v[1]
        if e["cls"] == "mfem::Array":
            n, s = v[0], self.arrsize(o)
            if len(v) == 1 and n[0] == "int" and s is not None and s[0] == "int" and n[1] > s[1] and o in self.fill and s[1] <= 64:
                fv = self.fill.pop(o)
                for i in range(s[1]):
                    if ("idx", o, I(i)) not in self.store:
                        self.put(("idx", o, I(i)), fv)
            if n[0] == "int" and s is not None and s[0] == "int" and n[1] < s[1]:
                for k in [k for k in self.kidsof.get(o, ()) if k[2][0] == "int" and k[2][1] >= n[1]]:
                    self.store.pop(k, None)
        self.size[o] = v[0] if e["cls"] in ("mfem::Array", "mfem::Vector") else ("pair",) + tuple(v)
        self.events.append(Event("call", e["callee"], o, v, e.get("l", self.line), self.frames[-1].f, e))
        return ("void",)

    def m_Size(self, e, o, args):
        if o is None:
            return None
        s = self.arrsize(o)
        return s if s is not None else ("call", "Size", self.content(o))

    m_size = m_Size

    def m_NumRows(self, e, o, args):
        s = self.arrsize(o) if o else None
        return s[1] if s and s[0] == "pair" else None

    def m_NumCols(self, e, o, args):
        s = self.arrsize(o) if o else None
        return s[2] if s and s[0] == "pair" else None

    def m_Append(self, e, o, args):
        s = self.arrsize(o) if o else None
        if s is None or s[0] != "int" or len(args) != 1:
            return None
        v = args[0][0]
        x = e["a"][0]
        while x["k"] in ("cast", "wrap", "paren") or x["k"] in WRAP:
            x = x["e"]
        if not (x["k"] == "un" and x["op"] == "&"):
            v = self.read(v) if v[0] in ("var", "fld", "idx") else v
        self.size[o] = I(s[1] + 1)
        self.write(("idx", o, s), v)
        return s

    m_push_back = m_Append

    def m_back(self, e, o, args):
        s = self.arrsize(o) if o else None
        if e.get("cls") != "std::vector" or s is None or s[0] != "int" or s[1] < 1:
            return None
        return self.read(("idx", o, I(s[1] - 1)))

    def m_front(self, e, o, args):
        s = self.arrsize(o) if o else None
        if e.get("cls") != "std::vector" or s is None or s[0] != "int" or s[1] < 1:
            return None
        return self.read(("idx", o, I(0)))

    def m_DeleteAll(self, e, o, args):
        self.drop(o)
        self.size[o] = I(0)
        return ("void",)

    def m_to_string(self, e, o, args):
        v = args[0][0]
        v = self.read(v) if v[0] in ("var", "fld", "idx") else v
        return S(str(v[1])) if v[0] == "int" else ("tostr", v)

    def m_c_str(self, e, o, args):
        return self.read(o) if o else None

    def m_at(self, e, o, args):
        if o is not None and e.get("cls") == "std::map" and args:
            self.claims.append(("call", "count", o, self.rv(args[0][0])))
        return self.read(("idx", o) + tuple(self.rv(v) for v, m in args)) if e.get("cls") in self.ARR else None

    def rv(self, v):
        return self.read(v) if isinstance(v, tuple) and v[0] in ("var", "fld", "idx", "glob") else v

    def opcall(self, e, lval=False):
        op = e["op"]
        a = e["a"]
        cal = e.get("callee", "")
        f = self.P.callee(e)
        if op in ("[]", "()") and e.get("cls") in self.ARR:
            o = self.lv(a[0])
            ad = ("idx", o) + tuple(self.rv(self.ev(x)) for x in a[1:])
            return ad if lval else self.read(ad)
        if op == "=" and e.get("cls", "").startswith("mfem::Array"):
            o, x = self.lv(a[0]), self.ev(a[1])
            if "Array" in e.get("pt", [""])[0]:
                self.copy_to(o, self.lv(a[1]))
            else:
                s = self.arrsize(o)
                self.drop(o)
                self.store.pop(o, None)
                self.fill[o] = self.rv(x)
                if s is not None:
                    self.size[o] = s
                self.events.append(Event("fill", cal, o, [self.rv(x)], e.get("l", self.line), self.frames[-1].f, e))
            return o
        if f is not None and f.get("body") and self.inline(f, e) and len(self.frames) < 12:
            if f.get("cls"):
                return self.run(f, self.lv(a[0]), self.bind(f, a[1:]))
            return self.run(f, None, self.bind(f, a))
        strs = "basic_string" in cal or "basic_string" in (a[0] or {}).get("t", "")
        if strs and op in ("==", "!=", "+", "="):
            if op == "=":
                o, y = self.lv(a[0]), self.ev(a[1])
                self.write(o, self.rv(y))
                return o if lval else self.read(o)
            x, y = self.ev(a[0]), self.ev(a[1])
            return self.compare(op, x, y) if op != "+" else self.arith("+", x, y)
        if strs and op == "+=":
            o, y = self.lv(a[0]), self.ev(a[1])
            self.write(o, self.arith("+", self.read(o), y))
            return o if lval else self.read(o)
        if op == "=" and len(a) == 2:
            o, y = self.lv(a[0]), self.lv(a[1])
            self.copy_to(o, y)
            self.events.append(Event("assign", cal, o, [self.content(y)], e.get("l", self.line), self.frames[-1].f, e))
            return o
        pt = e.get("pt", [])
        member = len(pt) == len(a) - 1
        o = self.lv(a[0]) if member else None
        args = self.args(a[1:] if member else a, pt)
        return self.opaque(cal or "operator" + op, o, args, e, e.get("cconst", True))

    # ---------------------------------------------------------------- statements
    def stmt(self, s):
        if s is None:
            return
        self.steps += 1
        if self.steps > self.MAXSTEPS:
            raise Undecided("too many steps")
        if s.get("l"):
            self.line = s["l"]
        k = s["k"]
        if k == "block":
            for x in s["s"]:
                self.stmt(x)
        elif k == "expr":
            a = ir.as_assert(s["e"])
            if a is not None:
                self.claim(a)
            else:
                self.ev(s["e"])
        elif k == "decl":
            for v in s["v"]:
                self.decl(v)
        elif k == "if":
            if s.get("init"):
                self.stmt(s["init"])
            if s.get("cvar"):
                self.decl(s["cvar"])
            c = self.ev(s["c"])
            if c is None:
                raise Undecided("condition")
            self.stmt(s["th"] if self.decide(c) else s["el"])
        elif k in ("for", "while", "do", "rfor"):
            self.loop(s)
        elif k == "return":
            raise Ret(None if s["e"] is None else self.retval(s["e"]))
        elif k in ("break", "continue"):
            raise Jump(k)
        elif k == "switch":
            self.switch(s)
        elif k in ("case", "default", "label"):
            self.stmt(s["s"])
        elif k == "try":
            self.stmt(s["body"])
        elif k == "nop":
            pass
        else:
            raise Undecided("statement " + k)

    def retval(self, e):
        f = self.frames[-1].f
        if f.get("ret", "").rstrip().endswith("&"):
            return self.lv(e)
        v = self.ev(e)
        return v

    def claim(self, c):
        """An assertion that holds."""
        n = len(self.used)
        try:
            v = self.ev(c)
        except Undecided:
            return
        if v is not None and v[0] in ("int", "null") and not self.decide(v):
            raise Abort("assert")
        if v is not None:
            self.claims.append(v)
            neg = False
            while v[0] == "not":
                v, neg = v[1], not neg
            if any(k == v and b == neg for k, b in self.used):
                raise Abort("assert")

    def decl(self, v):
        a = self.new("loc", v["n"])
        fr = self.frames[-1]
        init, t = v.get("init"), v["t"]
        if t.rstrip().endswith("&"):
            fr.vars[v["id"]] = self.lv(init)
            return
        self.local.add(a)
        fr.vars[v["id"]] = a
        if init is not None:
            self.init_at(a, init)
        m = re.search(r"\[(\d+)\]$", t)
        if m:
            self.size[a] = I(int(m.group(1)))
            x = self.store.get(a)
            if x is not None and x[0] == "list":
                self.store.pop(a)
                for n, y in enumerate(x[1:]):
                    self.write(("idx", a, I(n)), y)

    def switch(self, s):
        v = self.ev(s["c"])
        body = s["body"]["s"] if s["body"]["k"] == "block" else [s["body"]]
        flat = []
        for x in body:
            labs = []
            while x is not None and x["k"] in ("case", "default"):
                labs.append(x["v"] if x["k"] == "case" else None)
                x = x["s"]
            flat.append((labs, x))
        start = dflt = None
        for i, (labs, x) in enumerate(flat):
            for l in labs:
                if l is None:
                    dflt = i
                elif start is None and self.decide(self.compare("==", v, self.ev(l))):
                    start = i
        if start is None:
            start = dflt
        if start is None:
            return
        try:
            for labs, x in flat[start:]:
                self.stmt(x)
        except Jump as j:
            if j.k != "break":
                raise

    # ---------------------------------------------------------------- loops
    UNROLL = 64

    def loop(self, s):
        k = s["k"]
        if k == "for" and s.get("init"):
            self.stmt(s["init"])
        if k == "rfor":
            return self.generic(s)
        if k != "do":
            # unrolled as long as the condition is a constant
            n0 = len(self.used)
            save = self.save()
            first = True
            n = 0
            while True:
                c = self.ev(s["c"]) if s["c"] is not None else TRUE
                if c[0] != "int":
                    if not first:
                        # constant for some rounds only
                        break
                    break
                if not c[1]:
                    return
                first = False
                n += 1
                if n > self.UNROLL:
                    raise Undecided("long loop")
                if not self.round(s):
                    return
            if first:
                return self.generic(s)
        return self.generic(s)

    def save(self):
        return None

    def round(self, s):
        try:
            self.stmt(s["body"])
        except Jump as j:
            if j.k == "break":
                return False
        if s["k"] == "for" and s["inc"] is not None:
            self.ev(s["inc"])
        return True

    def generic(self, s):
        """One round with everything it changes at an unknown value."""
        steps = self.counters(s)
        starts = {a: self.store.get(a) for a in steps}
        for a, name in self.assigned(s):
            if self.store.get(a, None) is None and not self.kidsof.get(a):
                pass
            self.drop(a)
            self.n += 1
            self.store[a] = ("any", self.n, name)
        if s["k"] == "rfor":
            v = s["var"]
            r = self.lv(s["range"])
            self.n += 1
            a = self.new("loc", v["n"])
            self.local.add(a)
            self.frames[-1].vars[v["id"]] = a
            self.store[a] = ("idx", self.rv(r), ("any", self.n, "it"))
        else:
            c = self.ev(s["c"]) if s["c"] is not None and s["k"] != "do" else TRUE
            # the generic round is one in which the condition holds
            if c[0] == "int" and not c[1]:
                return
            self.hold(c)
            for a, d in steps.items():
                if starts[a] is not None:
                    sp = self.span(c, self.store[a], starts[a], d)
                    if sp:
                        self.spans[self.store[a]] = sp
        try:
            self.stmt(s["body"])
        except Jump:
            pass
        # afterwards: the changed variables are unknown
        for a, name in self.assigned(s):
            self.n += 1
            if a in self.store and self.store[a][0] in ("any", "int", "+"):
                self.store[a] = ("any", self.n, name)

    def counters(self, s):
        """Variables a for loop changes in its header only, by one: {address: step}."""
        if s["k"] != "for" or s.get("inc") is None:
            return {}
        body = list(ir.stmts(s["body"]))
        if any(x["k"] in ("break", "return") for x in body):
            return {}
        inb = set()
        for x in body:
            for e in ir.stmt_exprs(x):
                for y in ir.walk(e) if e is not None else ():
                    if y["k"] == "assign" or y["k"] == "un" and y["op"] in ("++", "--", "&"):
                        z = y.get("x") or y.get("e")
                        while z["k"] in ("cast", "paren"):
                            z = z["e"]
                        inb.add(z.get("id"))
        out, todo = {}, [s["inc"]]
        while todo:
            e = todo.pop()
            while e["k"] in ("cast", "paren"):
                e = e["e"]
            if e["k"] == "bin" and e["op"] == ",":
                todo += [e["x"], e["y"]]
                continue
            t, d = None, 0
            if e["k"] == "un" and e["op"] in ("++", "--"):
                t, d = e["e"], 1 if e["op"] == "++" else -1
            elif e["k"] == "assign" and e["op"] in ("+=", "-=") and e["y"].get("cv", e["y"].get("v")) == 1:
                t, d = e["x"], 1 if e["op"] == "+=" else -1
            if t is not None and t["k"] == "ref" and t.get("id") not in inb:
                a = self.frames[-1].vars.get(t["id"])
                if a is not None:
                    out[a] = d
        return out

    def span(self, c, t, start, d):
        neg = c[0] == "not"
        if neg:
            c = c[1]
        if c[0] == "==" and neg and t in c[1:]:
            b = c[2] if c[1] == t else c[1]
            return (start, self.arith("-", b, I(1))) if d > 0 else (self.arith("+", b, I(1)), start)
        if c[0] != "<":
            return None
        if d > 0:
            if not neg and c[1] == t:
                return start, self.arith("-", c[2], I(1))
            if neg and c[2] == t:
                return start, c[1]
        else:
            if not neg and c[2] == t:
                return self.arith("+", c[1], I(1)), start
            if neg and c[1] == t:
                return c[2], start
        return None

    def hold(self, c):
        if c[0] not in ("int", "not") and not any(k == c for k, v in self.used):
            self.forced.add(len(self.used))
            self.used.append((c, True))
            if len(self.script) >= len(self.used):
                self.script[len(self.used) - 1] = True

    def assigned(self, s):
        """Scalar variables a loop changes: [(address, name)]."""
        out = {}
        es = []
        for x in ir.stmts(s):
            for e in ir.stmt_exprs(x):
                if e is not None:
                    es += list(ir.walk(e))
        for e in es:
            t = None
            if e["k"] == "assign":
                t = e["x"]
            elif e["k"] == "un" and e["op"] in ("++", "--"):
                t = e["e"]
            if t is None:
                continue
            while t["k"] == "cast":
                t = t["e"]
            if t["k"] == "ref" and t["dk"] in ("local", "param"):
                a = self.frames[-1].vars.get(t["id"])
                if a is not None:
                    out[a] = t["n"]
        return list(out.items())


class Path:
    pass


def walks(prog, f, this=("this",), cls=None, params=None, inline=lambda f, e: True, limit=128, W=Walk, prepare=None):
    """All paths of a function: [Path(events, ret, used, abort, walk)]; raises Undecided when there are too many."""
    out = []
    todo = [[]]
    while todo:
        sc = todo.pop()
        w = W(prog, sc, inline)
        if this is not None:
            w.types[this] = cls or f.get("cls")
        p = Path()
        p.abort = None
        p.ret = None
        fr_b = []
        for q in f["params"]:
            v = (params or {}).get(q["n"], ("par", q["n"]))
            fr_b.append(("ref", v) if q["t"].rstrip().endswith("&") else ("val", v))
        if prepare:
            prepare(w)
        try:
            p.ret = w.run(f, this, fr_b)
        except Abort as a:
            p.abort = str(a) or "abort"
        except Jump:
            raise Undecided("jump")
        p.events, p.used, p.walk = w.events, w.used, w
        out.append(p)
        # siblings: the decisions made beyond the script, taken the other way
        for i in range(len(w.used) - 1, len(sc) - 1, -1):
            if w.used[i][1] and i not in w.forced:
                todo.append([v for t, v in w.used[:i]] + [False])
        if len(out) + len(todo) > limit:
            raise Undecided("too many paths in " + f["name"])
    return out
