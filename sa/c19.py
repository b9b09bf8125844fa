"""C19: helpers reject operands whose sizes do not fit, and stay within them.

Every helper is walked once per path. Sizes are symbols (rows, columns, length of every operand), integers and the positions of
pointers are polynomials in them and in loop counters (a loop is closed by the change of each pointer in one round), and what the
program has checked so far is a list of facts. Every access to an element gives an obligation "0 <= position < size", every library
call that does not check its operands an obligation about their sizes, every normal end the relations the helper stands for.
An obligation is discharged by substituting the facts and the ends of the ranges (`prove`); one that is not is reported if there
are sizes that satisfy every fact on the path and violate it.
"""
import itertools, re
from . import ir, c19r
from .report import main

SIZES, INTS = (0, 1, 2, 3), (-1, 0, 1, 2, 3, 4)


class Bail(Exception):
    pass


# ------------------------------------------------------------------ integer terms
def C(n):
    return ("c", n)


def add(x, y):
    if x is None or y is None:
        return None
    if x[0] == "c" and y[0] == "c":
        return C(x[1] + y[1])
    if x == C(0):
        return y
    return x if y == C(0) else ("+", x, y)


def mul(x, y):
    if x is None or y is None:
        return None
    if x[0] == "c" and y[0] == "c":
        return C(x[1] * y[1])
    if C(0) in (x, y):
        return C(0)
    if x == C(1):
        return y
    return x if y == C(1) else ("*", x, y)


def sub(x, y):
    return add(x, mul(C(-1), y))


def poly(x):
    """{sorted tuple of atoms: coefficient}"""
    k = x[0]
    if k == "c":
        return {(): x[1]} if x[1] else {}
    if k == "+":
        r = dict(poly(x[1]))
        for m, c in poly(x[2]).items():
            r[m] = r.get(m, 0) + c
        return {m: c for m, c in r.items() if c}
    if k == "*":
        r = {}
        for m, c in poly(x[1]).items():
            for n, d in poly(x[2]).items():
                q = tuple(sorted(m + n, key=repr))
                r[q] = r.get(q, 0) + c * d
        return {m: c for m, c in r.items() if c}
    return {(x,): 1}


def unpoly(p):
    r = C(0)
    for m, c in sorted(p.items(), key=repr):
        t = C(c)
        for a in m:
            t = mul(t, a)
        r = add(r, t)
    return r


def atoms(x, out=None):
    out = set() if out is None else out
    if isinstance(x, tuple):
        if x and x[0] in ("a", "ctr"):
            out.add(x)
        else:
            if x and x[0] == "elem":
                out.add(x)
            for y in x[1:] if x and isinstance(x[0], str) else x:
                atoms(y, out)
    return out


def subst(x, m):
    if x in m:
        return m[x]
    if isinstance(x, tuple) and x and x[0] not in ("c", "a", "ctr"):
        return tuple(subst(y, m) if isinstance(y, tuple) else y for y in x)
    return x


class Free(Exception):
    pass


def val(x, v):
    k = x[0]
    if k == "c":
        return x[1]
    if k in ("a", "ctr"):
        if x not in v:
            raise Free
        return v[x]
    if k == "+":
        return val(x[1], v) + val(x[2], v)
    if k == "*":
        return val(x[1], v) * val(x[2], v)
    if k == "max0":
        return max(0, val(x[1], v))
    if k == "elem":
        key = ("elem", x[1], val(x[2], v))
        if key not in v:
            raise Free
        return v[key]
    raise Free


def holds(f, v):
    """A fact under a valuation; Free when it depends on something not assigned."""
    k = f[0]
    if k == "cmp":
        x, y = val(f[2], v), val(f[3], v)
        return {"==": x == y, "!=": x != y, "<": x < y, "<=": x <= y, ">": x > y, ">=": x >= y}[f[1]]
    if k in ("and", "or"):
        free = False
        for g in f[1:]:
            try:
                if holds(g, v) == (k == "or"):
                    return k == "or"
            except Free:
                free = True
        if free:
            raise Free
        return k == "and"
    if k == "not":
        return not holds(f[1], v)
    if k == "all":
        _, c, lo, hi, g = f
        free = False
        for n in range(val(lo, v), val(hi, v)):
            w = dict(v)
            w[c] = n
            try:
                if not holds(g, w):
                    return False
            except Free:
                free = True
        if free:
            raise Free
        return True
    if k == "true":
        return True
    raise Free


def flip(f):
    if f[0] == "cmp":
        return ("cmp", {"==": "!=", "!=": "==", "<": ">=", ">=": "<", ">": "<=", "<=": ">"}[f[1]], f[2], f[3])
    if f[0] == "not":
        return f[1]
    if f[0] in ("and", "or"):
        return ("or" if f[0] == "and" else "and",) + tuple(flip(g) for g in f[1:])
    return ("not", f)


def flat(fs):
    for f in fs:
        if f[0] == "and":
            yield from flat(f[1:])
        else:
            yield f


# ------------------------------------------------------------------ deciding an obligation
def prove(facts, ranges, goal):
    """goal: ('within', position, size) or a comparison; by substitution only."""
    for f in flat(facts):
        if f[0] == "cmp" and f[1] in ("<=", "==") and f[3] == C(0) and any(r == (C(0), f[2]) for c, r in ranges.items()):
            return True         # within a loop that is not entered
    eq = {}

    def find(a):
        while a in eq:
            a = eq[a]
        return a

    upper, lower = {}, {}
    fs = list(flat(facts))
    for f in fs:
        if f[0] == "cmp" and f[1] == "==" and f[2][0] in ("a", "ctr") and f[3][0] in ("a", "c"):
            x, y = find(f[2]), f[3] if f[3][0] == "c" else find(f[3])
            if x != y and x[0] == "a":
                eq[x] = y
    full = lambda x: norm(subst(x, {a: find(a) for a in atoms(x) if a[0] == "a"}))

    def norm(x):
        return unpoly(poly(x))
    for f in fs:
        if f[0] == "cmp" and f[2][0] == "a" and f[1] in ("<", "<="):
            upper.setdefault(find(f[2]), []).append(full(sub(f[3], C(1)) if f[1] == "<" else f[3]))
        if f[0] == "cmp" and f[2][0] == "a" and f[1] in (">", ">=") and f[3][0] == "c":
            lower[find(f[2])] = f[3][1] + (f[1] == ">")
    if goal[0] == "cmp":
        if goal[1] != "==":
            return False
        d = poly(full(sub(goal[2], goal[3])))
        neg = {m: -c for m, c in d.items()}
        return not d or any(poly(full(sub(f[2], f[3]))) in (d, neg) for f in fs if f[0] == "cmp" and f[1] == "==")
    if goal[0] == "and":
        return all(prove(facts, ranges, g) for g in goal[1:])
    if goal[0] != "within":
        return False
    p, n = full(goal[1]), full(goal[2])

    def top(p, depth=0):
        """Upper ends that p can be bounded by."""
        if any(c < 0 for m, c in poly(p).items() if m and any(a[0] != "a" or a in upper for a in m)):
            return []
        for a in sorted(atoms(p), key=repr):
            if a[0] == "ctr" and a in ranges:
                return top(full(subst(p, {a: sub(ranges[a][1], C(1))})), depth + 1) if depth < 9 else []
            if a[0] == "elem":
                r = []
                for u in upper.get(("a", "max(%s)" % a[1]), []):
                    r += top(full(subst(p, {a: u})), depth + 1) if depth < 9 else []
                return r
        r = [p]
        for a in sorted(atoms(p), key=repr):
            for u in upper.get(a, []):
                if depth < 3:
                    r += top(full(subst(p, {a: u})), depth + 1)
        return r

    ok = False
    for t in top(p):
        d = poly(sub(sub(n, C(1)), t))
        if all(c >= 0 for c in d.values()) and all(a[0] == "a" for m in d for a in m):
            ok = True
    if not ok:
        return False
    for m, c in poly(p).items():
        if c < 0:
            return False
        for a in m:
            if a[0] == "ctr":
                lo = poly(ranges[a][0]) if a in ranges else {(): -1}
                if any(x < 0 for x in lo.values()):
                    return False
            elif a[0] == "elem":
                if lower.get(find(("a", "min(%s)" % a[1])), -1) < 0:
                    return False
            elif a[0] == "a" and a[1].startswith(("int ", "min(")):
                if lower.get(a, -1) < 0:
                    return False
    return True


def refute(facts, ranges, goal):
    """Sizes for which every fact holds and the goal does not; None if there are none among the small ones."""
    facts = list(flat(facts))
    need = atoms(goal)
    for c in list(need):
        if c in ranges:
            atoms(ranges[c][0], need), atoms(ranges[c][1], need)
    # facts connected with the goal
    fa = [(f, atoms(f)) for f in facts]
    ch = True
    while ch:
        ch = False
        for f, a in fa:
            if a & need and not a <= need:
                need |= a
                ch = True
        for c in list(need):
            if c in ranges:
                m = atoms(ranges[c][0]) | atoms(ranges[c][1])
                if not m <= need:
                    need |= m
                    ch = True
    base = sorted((a for a in need if a[0] == "a"), key=lambda a: (not a[1].startswith(("size", "rows")), a[1]))
    ctrs = [c for c in ranges if c in need]
    bound = {c for c in need if c[0] == "ctr" and c not in ranges}
    elems = [a for a in atoms(goal) | set().union(*[a for f, a in fa if f[0] != "all"] or [set()]) if a[0] == "elem" and not (atoms(a) - {a}) & bound]
    elems.sort(key=lambda a: (len(repr(a)), repr(a)))       # inner ones first
    if len(base) > 9 or len(elems) > 7:
        raise Bail("too many sizes")
    budget = [300000]

    def ok(v):
        budget[0] -= 1
        if budget[0] < 0:
            raise Bail("too many assignments")
        for f, _ in fa:
            try:
                if not holds(f, v):
                    return False
            except Free:
                pass
        return True

    def violated(v):
        try:
            if goal[0] == "within":
                p, n = val(goal[1], v), val(goal[2], v)
                return not 0 <= p < n
            return not holds(goal, v)
        except Free:
            return False

    def fill_elems(i, v):
        if i == len(elems):
            return dict(v) if ok(v) and violated(v) else None
        a = elems[i]
        try:
            key = ("elem", a[1], val(a[2], v))
        except Free:
            return fill_elems(i + 1, v)
        if key in v:
            return fill_elems(i + 1, v)
        lo, hi = v.get(("a", "min(%s)" % a[1]), INTS[0]), v.get(("a", "max(%s)" % a[1]), INTS[-1])
        for n in range(lo, hi + 1):
            v[key] = n
            r = fill_elems(i + 1, v)
            if r is not None:
                return r
        del v[key]
        return None

    def fill_ctrs(i, v):
        if i == len(ctrs):
            return fill_elems(0, v)
        try:
            lo, hi = val(ranges[ctrs[i]][0], v), val(ranges[ctrs[i]][1], v)
        except Free:
            return None
        for n in range(lo, hi):
            v[ctrs[i]] = n
            r = fill_ctrs(i + 1, v) if ok(v) else None
            if r is not None:
                return r
        v.pop(ctrs[i], None)
        return None

    def fill(i, v):
        if i == len(base):
            return fill_ctrs(0, v)
        for n in (INTS if base[i][1].startswith(("int ", "min(", "max(")) else SIZES):
            v[base[i]] = n
            r = fill(i + 1, v) if ok(v) else None
            if r is not None:
                return r
        v.pop(base[i], None)
        return None
    return fill(0, {})


# ------------------------------------------------------------------ the walk
class Obj:
    def __init__(self, kind, name, dims, off=None):
        self.kind, self.name, self.dims = kind, name, list(dims)
        self.off = off

    def copy(self):
        o = Obj(self.kind, self.name, self.dims, self.off)
        o.elems = getattr(self, "elems", None)
        return o

    def length(self):
        n = C(1)
        for d in self.dims:
            n = mul(n, d)
        return n


KINDS = {"Vector": 1, "DenseMatrix": 2, "DenseTensor": 3, "SparseMatrix": 2, "Operator": 2, "Array<int>": 1, "BlockMatrix": 2,
         "BlockOperator": 2, "MatrixBlocks": 2, "Array2D": 2, "BlockVector": 1, "Matrix": 2, "Solver": 2, "Array<double>": 1,
         "Array<DenseMatrix *>": 1}
DIMS = {1: ("size",), 2: ("rows", "cols"), 3: ("I", "J", "K")}


def cls(t):
    t = re.sub(r"\bconst\b", "", t).replace("&", "").strip()
    t = re.sub(r"\*+$", "", t).strip()
    t = t.split("::")[-1] if "<" not in t else t.replace("mfem::", "")
    if t.startswith("Array2D<"):
        t = "Array2D"
    return t


class State:
    def __init__(self):
        self.env, self.facts, self.ranges, self.objs = {}, [], {}, {}

    def copy(self):
        s = State()
        s.env, s.facts, s.ranges = dict(self.env), list(self.facts), dict(self.ranges)
        s.objs = {k: o.copy() for k, o in self.objs.items()}
        return s


class Walk:
    """One helper, all paths."""
    count = itertools.count()

    def __init__(self, prog, f, note):
        self.prog, self.f, self.note = prog, f, note
        self.obl = []           # (facts, ranges, goal, line, text)
        self.ends = []          # states at the normal ends
        self.quiet = 0
        self.depth = 0
        self.line = f["line"]
        self.stack = [f]

    def fresh(self, n):
        return "%s#%d" % (n, next(self.count))

    # ---- objects
    def new(self, st, kind, name, dims=None):
        if dims is None:
            dims = [("a", "%s(%s)" % (d, name)) for d in DIMS[KINDS[kind]]]
        st.objs[name] = Obj(kind, name, dims)
        return ("obj", name)

    def want(self, st, goal, line, text):
        if self.quiet or goal is None:
            return
        self.obl.append((list(st.facts), dict(st.ranges), goal, line or self.line, text))

    def within(self, st, pos, size, line, text):
        if pos is None or size is None:
            self.unknown += not self.quiet
            return
        self.want(st, ("within", pos, size), line, text)

    def same(self, st, x, y, line, text):
        if x is None or y is None:
            self.unknown += not self.quiet
            return
        self.want(st, ("cmp", "==", x, y), line, text)

    unknown = 0

    # ---- running
    def run(self, this=None):
        st = State()
        for p in self.f["params"]:
            st.env[p["id"]] = self.param(st, p)
        if this:
            this(self, st)
        outs = self.block([st], self.f["body"])
        self.ends += outs
        return self

    def param(self, st, p):
        k = cls(p["t"])
        if k in KINDS:
            return self.new(st, k, p["n"])
        if k in ("int", "long", "size_t"):
            return ("int", ("a", "int " + p["n"]))
        return None

    def block(self, sts, s):
        if s is None:
            return sts
        out = sts
        for x in (s["s"] if s["k"] == "block" else [s]):
            nxt = []
            for st in out:
                nxt += self.stmt(st, x)
            out = nxt
            if len(out) > 16:
                raise Bail("paths")
        return out

    def stmt(self, st, s):
        """States after the statement; jumps are kept in self.jumps."""
        if s is None:
            return [st]
        k = s["k"]
        if s.get("l"):
            self.line = s["l"]
        if k == "block":
            return self.block([st], s)
        if k == "expr":
            self.ev(st, s["e"])
            return [] if self.dead(st) else [st]
        if k == "decl":
            for v in s["v"]:
                self.decl(st, v)
            return [] if self.dead(st) else [st]
        if k == "if":
            if s.get("init"):
                self.stmt(st, s["init"])
            c = self.cond(st, s["c"])
            a, b = st, st.copy()
            a.facts.append(c)
            b.facts.append(flip(c))
            return self.block([a], s.get("th")) + self.block([b], s.get("el"))
        if k in ("for", "while", "do", "rfor"):
            return self.loop(st, s)
        if k == "switch":
            return self.switch(st, s)
        if k == "return":
            r = self.ev(st, s["e"]) if s.get("e") else None
            st.env["ret"] = r
            if self.dead(st):
                return []
            self.returns[-1].append(st)
            return []
        if k in ("break", "continue"):
            self.jumps[-1].append((k, st))
            return []
        if k in ("nop", "empty", "null"):
            return [st]
        raise Bail("statement " + k)

    returns = None

    def dead(self, st):
        return any(f == ("false",) for f in st.facts)

    def decl(self, st, v):
        t = v.get("t", "")
        k = cls(t)
        i = v.get("init")
        name = v["n"] if v["n"] not in st.objs else self.fresh(v["n"])
        if t.rstrip().endswith("&") or "*" in t:
            st.env[v["id"]] = self.ev(st, i) if i else None
            return
        if k in KINDS:
            st.env[v["id"]] = self.construct(st, k, name, i)
            return
        st.env[v["id"]] = self.ev(st, i) if i is not None else None

    def construct(self, st, k, name, i):
        i = ir.strip(i) if i is not None else None
        a = [self.ev(st, x) for x in i.get("a", []) if x is not None and not x.get("defarg")] if i is not None and i["k"] == "ctor" else None
        if a is None and i is not None:
            a = [self.ev(st, i)]
        a = a or []
        n = KINDS[k]
        if not a:
            return self.new(st, k, name, [C(0)] * n)
        if a[0] and a[0][0] == "obj" and len(a) == 1 and KINDS[st.objs[a[0][1]].kind] == n:
            o = st.objs[a[0][1]]
            r = self.new(st, k, name, list(o.dims))
            st.objs[name].off = o.off
            st.objs[name].elems = getattr(o, "elems", None) or o.name
            return r
        if a[0] and a[0][0] == "ptr":       # a view
            ds = [self.num(x) for x in a[1:1 + n]]
            r = self.new(st, k, name, ds if len(ds) == n else [None] * n)
            self.view(st, a[0], st.objs[name], self.line)
            return r
        ds = [self.num(x) for x in a]
        if len(ds) == 1 and n == 2:
            ds = ds * 2
        return self.new(st, k, name, ds[:n] if len(ds) >= n else [None] * n)

    def view(self, st, p, o, line):
        n = o.length() if all(d is not None for d in o.dims) else None
        if n is None or p[2] is None or p[1][1] is None:
            return
        # the whole view within what it views, if it is not empty
        self.want(st, ("or", ("cmp", "<=", n, C(0)), ("and", ("cmp", ">=", p[2], C(0)), ("cmp", "<=", add(p[2], n), p[1][1]))),
                  line, "a view of %s" % p[1][0])

    @staticmethod
    def num(v):
        return v[1] if v is not None and v[0] == "int" else None

    # ---- loops
    def assigned(self, s):
        ids, inner = set(), set()
        for x in ir.stmts(s):
            if x["k"] == "decl":
                inner |= {v["id"] for v in x["v"]}
            for e in ir.stmt_exprs(x):
                for y in ir.walk(e) if e else ():
                    if y["k"] == "assign" or y["k"] == "un" and y["op"] in ("++", "--"):
                        t = ir.strip(y["x"] if y["k"] == "assign" else y["e"])
                        if t["k"] == "ref" and "id" in t:
                            ids.add(t["id"])
        return ids - inner

    def loop(self, st, s):
        k = s["k"]
        if k == "rfor":
            raise Bail("range for")
        if k == "for" and s.get("init"):
            r = self.stmt(st, s["init"])
            if not r:
                return []
        inc = s.get("inc")
        body = {"k": "block", "s": [s["body"]] + ([{"k": "expr", "e": inc}] if inc else [])}
        ids = self.assigned(body)
        cid, lo, hi, sgn = self.counter(st, s, ids)
        c = ("ctr", self.fresh("i"))
        entry = {i: st.env.get(i) for i in ids}
        if cid is None:
            # a loop that is not counted: nothing is known about what it changes
            for i in ids:
                st.env[i] = None
            b = st.copy()
            if s.get("c") is not None and k != "do":
                try:
                    b.facts.append(self.cond(b, s["c"]))
                except Bail:
                    pass
            self.body(b, s["body"], inc)
            return [st]
        trip = sub(hi, lo)
        # first walk: the change in one round
        probe = st.copy()
        ph = {}
        for i in ids:
            e = entry[i]
            if i == cid:
                continue
            if e is not None and e[0] == "ptr":
                ph[i] = ("a", self.fresh("at"))
                probe.env[i] = ("ptr", e[1], ph[i])
            elif e is not None and e[0] == "int":
                ph[i] = ("a", self.fresh("at"))
                probe.env[i] = ("int", ph[i])
            else:
                probe.env[i] = None
        probe.env[cid] = ("int", c if sgn > 0 else sub(sub(add(hi, lo), C(1)), c))
        probe.ranges[c] = (lo, hi)
        self.quiet += 1
        ends = self.body(probe, s["body"], inc)
        self.quiet -= 1
        delta = {}
        for i, a in ph.items():
            ds = set()
            for e in ends:
                v = e.env.get(i)
                x = v[2] if v is not None and v[0] == "ptr" and v[1] == entry[i][1] else v[1] if v is not None and v[0] == "int" and entry[i][0] == "int" else None
                if x is None:
                    ds.add(None)
                    continue
                d = unpoly(poly(sub(x, a)))
                ds.add(None if a in atoms(d) or c in atoms(d) else d)
            delta[i] = ds.pop() if len(ds) == 1 else None
        # second walk: a generic round
        b = st.copy()
        for i in ids:
            if i == cid:
                continue
            b.env[i] = self.moved(entry[i], delta.get(i), sub(c, lo))
        b.env[cid] = probe_counter = ("int", c if sgn > 0 else sub(sub(add(hi, lo), C(1)), c))
        b.ranges[c] = (lo, hi)
        b.facts.append(("cmp", ">=", c, lo))
        b.facts.append(("cmp", "<", c, hi))
        n0 = len(b.facts)
        start = list(b.facts)
        ends = self.body(b, s["body"], inc)
        # afterwards
        t = trip if prove(st.facts, st.ranges, ("within", C(0), add(trip, C(1)))) else ("max0", trip)
        for i in ids:
            if i != cid:
                st.env[i] = self.moved(entry[i], delta.get(i), t)
        st.env[cid] = None
        if ends and not self.broke:
            common = [f for f in ends[0].facts[n0:] if all(f in e.facts for e in ends[1:])]
            for f in common:
                if f[0] != "true":
                    st.facts.append(("all", c, lo, hi, f))
            # objects that every round leaves with the same size keep it; others are unknown
        for n, o in st.objs.items():
            for e in ends:
                if n in e.objs and e.objs[n].dims != o.dims:
                    inside = any(c in atoms(d) for d in e.objs[n].dims if d is not None)
                    o.dims = [None] * len(o.dims) if inside or True else e.objs[n].dims
        return [st]

    def moved(self, e, d, n):
        if e is None or d is None:
            return None
        if e[0] == "ptr":
            return ("ptr", e[1], add(e[2], mul(n, d)))
        return ("int", add(e[1], mul(n, d)))

    broke = False

    def body(self, st, s, inc):
        self.jumps.append([])
        outs = self.block([st], s)
        js = self.jumps.pop()
        self.broke = any(k == "break" for k, _ in js)
        outs = outs + [x for k, x in js if k == "continue"]
        if inc is not None:
            for o in outs:
                self.ev(o, inc)
        return outs

    def counter(self, st, s, ids):
        """(id, first, end, direction) of a counted loop"""
        none = (None, None, None, 1)
        c = s.get("c")
        if c is None or s["k"] == "do":
            return none
        c = ir.strip(c)
        if c["k"] != "bin" or c["op"] not in ("<", "<=", "!=", ">", ">="):
            return none
        x, y, op = ir.strip(c["x"]), ir.strip(c["y"]), c["op"]
        if not (x["k"] == "ref" and x.get("id") in ids):
            if y["k"] == "ref" and y.get("id") in ids:
                x, y, op = y, x, {"<": ">", ">": "<", "<=": ">=", ">=": "<=", "!=": "!="}[op]
            else:
                return none
        i = x["id"]
        steps = []
        for part in (s.get("inc"), s["body"]):
            if part is None:
                continue
            es = ir.walk(part) if part.get("k") and "t" in part else [z for q in ir.stmts(part) for e in ir.stmt_exprs(q) if e for z in ir.walk(e)]
            for e in es:
                if e["k"] == "un" and e["op"] in ("++", "--") and ir.strip(e["e"]).get("id") == i:
                    steps.append(1 if e["op"] == "++" else -1)
                elif e["k"] == "assign" and ir.strip(e["x"]).get("id") == i:
                    n = ir.strip(e["y"])
                    steps.append({"+=": 1, "-=": -1}.get(e["op"], 0) * (n["v"] if n["k"] == "int" else 0))
        if len(steps) != 1 or steps[0] not in (1, -1):
            return none
        if s["k"] == "while" or s.get("inc") is None:
            last = s["body"]["s"][-1] if s["body"]["k"] == "block" and s["body"]["s"] else s["body"]
            if not any(ir.strip(z["e"] if z["k"] == "un" else z["x"]).get("id") == i for e in ir.stmt_exprs(last) if e for z in ir.walk(e)
                       if z["k"] == "un" and z["op"] in ("++", "--") or z["k"] == "assign"):
                return none
            if any(z["k"] == "continue" for z in ir.stmts(s["body"])):
                return none
        v = self.num(st.env.get(i))
        self.quiet += 1
        b = self.num(self.ev(st, y))
        self.quiet -= 1
        changed = {z for z in (e.get("id") for e in ir.walk(y)) if z} & ids
        if v is None or b is None or changed:
            return none
        if steps[0] == 1 and op in ("<", "<=", "!="):
            return i, v, add(b, C(1)) if op == "<=" else b, 1
        if steps[0] == -1 and op in (">", ">=", "!="):
            return i, b if op == ">=" else add(b, C(1)), add(v, C(1)), -1
        return none

    def switch(self, st, s):
        x = self.num(self.ev(st, s["c"]))
        items = s["body"]["s"] if s["body"]["k"] == "block" else [s["body"]]
        flatl = []
        for it in items:
            while it is not None and it["k"] in ("case", "default"):
                flatl.append(("label", it.get("v") if it["k"] == "case" else None))
                it = it.get("s")
            flatl.append(("s", it))
        vals = [l[1] for l in flatl if l[0] == "label" and l[1] is not None]
        out, self_j = [], []
        has_default = any(l == ("label", None) for l in flatl)

        def const(v):
            v = ir.strip(v)
            return v.get("v", v.get("cv"))
        for n, l in enumerate(flatl):
            if l[0] != "label":
                continue
            b = st.copy()
            if x is not None:
                if l[1] is not None:
                    b.facts.append(("cmp", "==", x, C(const(l[1]))))
                else:
                    for v in vals:
                        b.facts.append(("cmp", "!=", x, C(const(v))))
            self.jumps.append([])
            cur = [b]
            for m in flatl[n:]:
                if m[0] == "s":
                    nxt = []
                    for q in cur:
                        nxt += self.stmt(q, m[1])
                    cur = nxt
            js = self.jumps.pop()
            out += cur + [q for kk, q in js if kk == "break"]
            for kk, q in js:
                if kk == "continue":
                    self.jumps[-1].append((kk, q))
        if not has_default:
            b = st.copy()
            for v in vals:
                if x is not None:
                    b.facts.append(("cmp", "!=", x, C(const(v))))
            out.append(b)
        return out

    # ---- conditions
    def cond(self, st, e):
        e = ir.strip(e)
        k = e["k"]
        if k == "bool":
            return ("true",) if e["v"] else ("false",)
        if k == "bin" and e["op"] in ("&&", "||"):
            a = self.cond(st, e["x"])
            b = st.copy()
            b.env, b.objs = st.env, st.objs
            b.facts.append(a if e["op"] == "&&" else flip(a))
            n0 = len(b.facts)
            c = self.cond(b, e["y"])
            for f in b.facts[n0:]:          # what the second operand relies on holds where it is evaluated
                st.facts.append(("or", flip(b.facts[n0 - 1]), f))
            return ("and" if e["op"] == "&&" else "or", a, c)
        if k == "un" and e["op"] == "!":
            return flip(self.cond(st, e["e"]))
        if k == "bin" and e["op"] in ("==", "!=", "<", "<=", ">", ">="):
            x, y = self.ev(st, e["x"]), self.ev(st, e["y"])
            if self.num(x) is not None and self.num(y) is not None:
                return ("cmp", e["op"], self.num(x), self.num(y))
            t = e["x"].get("t", "")
            if re.sub(r"\bconst\b", "", t).strip() in ("int", "long", "size_t", "unsigned long"):
                raise Bail("comparison of unknown integers")
            return ("opaque", self.fresh("?"))
        if k in ("call", "mcall"):
            v = self.ev(st, e)
            if v is not None and v[0] == "bool":
                return v[1]
            if self.num(v) is not None:
                return ("cmp", "!=", self.num(v), C(0))
            n = (e.get("callee") or "").split("::")[-1]
            if any(w is not None and w[0] == "obj" for w in [self.ev(st, x) for x in e.get("a", []) if x]) and n not in ("isnan", "isfinite"):
                raise Bail("condition " + n)
            return ("opaque", self.fresh("?"))
        v = self.ev(st, e)
        if v is not None and v[0] == "bool":
            return v[1]
        if self.num(v) is not None:
            return ("cmp", "!=", self.num(v), C(0))
        return ("opaque", self.fresh("?"))

    # ---- expressions
    def ev(self, st, e):
        if e is None:
            return None
        k = e["k"]
        if e.get("l"):
            self.line = e["l"]
        c = ir.as_assert(e)
        if c is not None:
            st.facts.append(self.cond(st, c))
            return None
        if k == "cast":
            return self.ev(st, e["e"])
        if k == "int":
            return ("int", C(e["v"]))
        if k == "bool":
            return ("bool", ("true",) if e["v"] else ("false",))
        if k == "ref":
            return st.env.get(e.get("id"), ("int", C(e["cv"])) if isinstance(e.get("cv"), int) else None)
        if k == "this":
            return st.env.get("this")
        if k == "mem":
            if ("f", e["n"]) in st.env and (e.get("b") is None or ir.strip(e["b"])["k"] == "this"):
                return st.env[("f", e["n"])]
            if cls(e.get("t", "")) == "int" and e.get("dk") == "field" and (e.get("b") is None or ir.strip(e["b"])["k"] == "this"):
                r = st.env["f", e["n"]] = self.field(st, st.env.get("this"), e) or ("int", ("a", "int " + e["n"]))
                return r
            b = self.ev(st, e["b"]) if e.get("b") is not None else st.env.get("this")
            if b is not None and b[0] == "obj":
                return self.field(st, b, e)
            return None
        if k == "un":
            return self.unary(st, e)
        if k == "bin":
            return self.binary(st, e)
        if k == "assign":
            return self.assign(st, e)
        if k == "sub":
            x, y = self.ev(st, e["x"]), self.ev(st, e["y"])
            if x is None or x[0] != "ptr":
                return None
            return self.access(st, x[1], add(x[2], self.num(y)), e.get("l"))
        if k == "cond":
            f = self.cond(st, e["c"])
            a, b = st.copy(), st.copy()
            a.facts.append(f)
            b.facts.append(flip(f))
            x, y = self.ev(a, e["x"]), self.ev(b, e["y"])
            if x == y:
                return x
            if self.num(x) is not None and self.num(y) is not None:
                r = ("a", "int " + self.fresh("?"))
                st.facts.append(("or", ("and", f, ("cmp", "==", r, self.num(x))), ("and", flip(f), ("cmp", "==", r, self.num(y)))))
                return ("int", r)
            return None
        if k == "opcall":
            return self.opcall(st, e)
        if k == "mcall":
            return self.mcall(st, e)
        if k == "call":
            return self.call(st, e)
        if k == "ctor":
            kk = cls(e.get("cls") or e.get("t", ""))
            if kk in KINDS:
                return self.construct(st, kk, self.fresh("tmp"), e)
            for x in e.get("a", []):
                self.ev(st, x)
            return None
        if k == "new":
            kk = cls(e.get("at", ""))
            if kk in KINDS and e.get("init") is not None and not e.get("size"):
                return self.construct(st, kk, self.fresh("new"), e["init"])
            return None
        for x in ir.kids(e):
            self.ev(st, x)
        return None

    def access(self, st, buf, pos, line):
        self.within(st, pos, buf[1], line, "an element of %s" % buf[0])
        if len(buf) > 2 and buf[2] and pos is not None:
            return ("int", self.element(st, buf[2], pos))
        return None

    def element(self, st, arr, pos):
        return ("elem", arr, pos)

    def unary(self, st, e):
        op = e["op"]
        if op == "*":
            v = self.ev(st, e["e"])
            if v is not None and v[0] == "ptr":
                return self.access(st, v[1], v[2], e.get("l"))
            return v if v is not None and v[0] == "obj" else None
        if op in ("++", "--"):
            t = ir.strip(e["e"])
            v = self.ev(st, e["e"])
            d = C(1 if op == "++" else -1)
            if t["k"] != "ref":
                return None
            n = None
            if v is not None and v[0] == "ptr":
                n = ("ptr", v[1], add(v[2], d))
            elif v is not None and v[0] == "int":
                n = ("int", add(v[1], d))
            st.env[t["id"]] = n
            return v if e["post"] else n
        if op == "&":
            t = ir.strip(e["e"])
            v = None
            if t["k"] == "opcall" and t["op"] in ("()", "[]") or t["k"] == "sub":
                self.ev(st, t)
                return None
            v = self.ev(st, t)
            return v if v is not None and v[0] == "obj" else None
        v = self.ev(st, e["e"])
        if op == "-" and self.num(v) is not None:
            return ("int", mul(C(-1), self.num(v)))
        if op == "!":
            return ("bool", flip(v[1])) if v is not None and v[0] == "bool" else None
        return None

    def binary(self, st, e):
        op = e["op"]
        if op in ("&&", "||", "==", "!=", "<", "<=", ">", ">="):
            try:
                return ("bool", self.cond(st, e))
            except Bail:
                raise
        x, y = self.ev(st, e["x"]), self.ev(st, e["y"])
        if op == ",":
            return y
        if op in ("+", "-"):
            if x is not None and x[0] == "ptr":
                n = self.num(y)
                return ("ptr", x[1], (add if op == "+" else sub)(x[2], n) if n is not None else None)
            if y is not None and y[0] == "ptr" and op == "+":
                return ("ptr", y[1], add(y[2], self.num(x)))
        a, b = self.num(x), self.num(y)
        if a is None or b is None:
            return None
        if op == "+":
            return ("int", add(a, b))
        if op == "-":
            return ("int", sub(a, b))
        if op == "*":
            return ("int", mul(a, b))
        return None

    def assign(self, st, e):
        t = ir.strip(e["x"])
        v = self.ev(st, e["y"])
        if t["k"] == "ref" and (t.get("dk") in ("local", "param")) and not t.get("t", "").endswith("&"):
            old = st.env.get(t.get("id"))
            op = e["op"]
            if op == "=":
                n = v
            elif op in ("+=", "-=") and old is not None and old[0] == "ptr":
                d = self.num(v)
                n = ("ptr", old[1], (add if op == "+=" else sub)(old[2], d) if d is not None else None)
            elif op in ("+=", "-=", "*=") and self.num(old) is not None and self.num(v) is not None:
                n = ("int", {"+=": add, "-=": sub, "*=": mul}[op](self.num(old), self.num(v)))
            else:
                n = None
            st.env[t["id"]] = n
            return n
        if t["k"] == "mem" and (t.get("b") is None or ir.strip(t["b"])["k"] == "this") and (("f", t["n"]) in st.env or cls(t.get("t", "")) == "int"):
            st.env[("f", t["n"])] = v if e["op"] == "=" else None
            return v
        self.ev(st, e["x"])
        return None

    def opcall(self, st, e):
        op, a = e["op"], e["a"]
        if op == "<<":
            return None
        vs = [self.ev(st, x) for x in a]
        o = self.obj(st, vs[0])
        l = e.get("l")
        if op in ("()", "[]") and o is not None:
            ix = [self.num(v) for v in vs[1:]]
            return self.index(st, o, ix, l)
        p = self.obj(st, vs[1]) if len(vs) > 1 else None
        if op == "=" and o is not None:
            if p is not None and o is not p:
                if KINDS[p.kind] == KINDS[o.kind] and o.kind in ("Vector", "DenseMatrix", "Array<int>", "DenseTensor"):
                    o.dims = list(p.dims)
            return vs[0]
        if op in ("+=", "-=") and o is not None and p is not None and o.kind == p.kind:
            for x, y in zip(o.dims, p.dims):
                self.same(st, x, y, l, "%s and %s" % (o.name, p.name))
            return vs[0]
        if op == "*" and o is not None and p is not None and o.kind == p.kind == "Vector":
            self.same(st, o.dims[0], p.dims[0], l, "the lengths of %s and %s" % (o.name, p.name))
            return None
        return None

    def index(self, st, o, ix, l):
        if o.kind == "MatrixBlocks":
            if len(ix) != 2 or None in ix or None in o.dims:
                return None
            for n, d in zip(ix, o.dims):        # its own checks
                st.facts += [("cmp", ">=", n, C(0)), ("cmp", "<", n, d)]
            n = self.stable(st, o, ix)
            return ("obj", n) if n in st.objs else self.new(st, "SparseMatrix", n)
        if o.kind == "DenseTensor" and len(ix) == 1:
            self.within(st, ix[0], o.dims[2], l, "slice of %s" % o.name)
            if o.dims[0] is None:
                return None
            return self.new(st, "DenseMatrix", self.fresh(o.name + "(k)"), o.dims[:2])
        if len(ix) != len(o.dims):
            return None
        for n, d, w in zip(ix, o.dims, ("row", "column", "slice") if len(ix) > 1 else ("entry",)):
            self.within(st, n, d, l, "%s of %s" % (w, o.name))
        if o.kind == "Array<DenseMatrix *>" and ix[0] is not None and ("f", "row_offsets") in st.env:
            n = self.extent(st.objs["row_offsets"], ix[0])
            return self.new(st, "DenseMatrix", "%s[%d]" % (o.name, next(self.count)), [n, n])
        if o.kind == "Array<int>" and ix[0] is not None:
            return ("int", self.element(st, getattr(o, "elems", None) or o.name, ix[0]))
        return None

    blocks = None

    def stable(self, st, o, ix):
        """The name of the block at that position."""
        key = (o.name, tuple(ix))
        self.blocks = self.blocks or {}
        return self.blocks.setdefault(key, "%s block#%d" % (o.name, len(self.blocks)))

    @staticmethod
    def extent(o, i):
        nm = getattr(o, "elems", None) or o.name
        return sub(("elem", nm, add(i, C(1))), ("elem", nm, i))

    def obj(self, st, v):
        return st.objs.get(v[1]) if v is not None and v[0] == "obj" else None

    def field(self, st, b, e):
        o = self.obj(st, b)
        n = e["n"]
        if o is not None and o.kind == "Operator" and ("f", n) in st.env:
            return st.env["f", n]
        if o is not None and o.kind == "MatrixBlocks":
            if n in ("nrows", "ncols"):
                d = o.dims[n == "ncols"]
                return ("int", d) if d is not None else None
            if n == "blocks":
                nm = o.name + ".blocks"
                if nm not in st.objs:
                    self.new(st, "Array2D", nm, list(o.dims))
                return ("obj", nm)
        return st.env.get(("f", n))

    def buffer(self, o):
        n = o.length() if all(d is not None for d in o.dims) else None
        return (o.name, n, (getattr(o, "elems", None) or o.name) if o.kind == "Array<int>" else None)

    def mcall(self, st, e):
        n = (e.get("callee") or "").split("::")[-1]
        ov = self.ev(st, e["obj"]) if e.get("obj") is not None else st.env.get("this")
        o = self.obj(st, ov)
        av = [self.ev(st, x) for x in e["a"] if x is not None and not x.get("defarg")]
        l = e.get("l")
        if o is None:
            self.escape(st, e, av)
            return None
        k, d = o.kind, o.dims
        i = [self.num(v) for v in av]
        ao = [self.obj(st, v) for v in av]
        dim = {"Size": 0, "NumRows": 0, "Height": 0, "NumCols": 1, "Width": 1, "SizeI": 0, "SizeJ": 1, "SizeK": 2,
               "NumRowBlocks": 0, "NumColBlocks": 1, "GetNumRows": 0, "GetNumCols": 1}
        if n in dim and not av and dim[n] < len(d):
            if k in ("BlockMatrix", "BlockOperator") and n in ("NumRows", "NumCols", "Height", "Width"):
                return ("int", ("a", "size %s(%s)" % ({"Height": "NumRows", "Width": "NumCols"}.get(n, n), o.name)))
            if d[dim[n]] is None:
                return None
            return ("int", d[dim[n]])
        if n == "TotalSize" and k == "DenseTensor":
            return ("int", o.length()) if None not in d else None
        if n in ("Min", "Max") and k == "Array<int>":
            nm = getattr(o, "elems", None) or o.name
            self.within(st, C(0), d[0], l, "%s of %s, which may be empty" % (n, o.name))
            if d[0] is not None:
                st.facts.append(("cmp", ">=", d[0], C(1)))
            st.facts.append(("cmp", "<=", ("a", "min(%s)" % nm), ("a", "max(%s)" % nm)))
            return ("int", ("a", "%s(%s)" % (n.lower(), nm)))
        if n == "SetSize":
            if k == "MatrixBlocks" or not i:
                o.dims = [None] * len(d)
            elif len(i) >= len(d):
                o.dims = i[:len(d)]
            else:
                o.dims = [i[0]] * len(d)
            return None
        if n in ("GetData", "Data", "Read", "Write", "ReadWrite", "HostRead", "HostWrite", "HostReadWrite", "begin"):
            if k in ("Vector", "DenseMatrix", "DenseTensor", "Array<int>", "Array<double>", "BlockVector"):
                if k == "DenseTensor" and i:
                    self.within(st, i[0], d[2], l, "slice of %s" % o.name)
                    return ("ptr", self.buffer(o), mul(i[0], mul(d[0], d[1])) if i[0] is not None and None not in d else None)
                return ("ptr", self.buffer(o), C(0))
            return None
        if n in ("GetColumnReference", "GetColumn") and k == "DenseMatrix" and len(av) == 2:
            self.within(st, i[0], d[1], l, "column of %s" % o.name)
            if ao[1] is not None:
                ao[1].dims = [d[0]]
            return None
        if n == "GetColumn" and k == "DenseMatrix" and len(av) == 1:
            self.within(st, i[0], d[1], l, "column of %s" % o.name)
            return ("ptr", ("a column of " + o.name, d[0], None), C(0))
        if n in ("Mult", "MultTranspose", "AddMult", "AddMultTranspose") and len(ao) >= 2 and k in ("DenseMatrix", "SparseMatrix", "Operator", "Matrix") \
                and ao[0] is not None and ao[1] is not None and ao[0].kind == ao[1].kind == "Vector":
            t = "Transpose" in n
            self.same(st, ao[0].dims[0], d[0 if t else 1], l, "the length of %s and %s" % (ao[0].name, o.name))
            self.same(st, ao[1].dims[0], d[1 if t else 0], l, "the length of %s and %s" % (ao[1].name, o.name))
            return None
        if n in ("Add", "Set") and k == "Vector" and len(ao) == 2 and ao[1] is not None:
            if n == "Add":
                self.same(st, d[0], ao[1].dims[0], l, "the lengths of %s and %s" % (o.name, ao[1].name))
            return None
        if n in ("Add", "Set") and k == "SparseMatrix" and len(av) == 3:
            self.within(st, i[0], d[0], l, "row of %s" % o.name)
            self.within(st, i[1], d[1], l, "column of %s" % o.name)
            return None
        if n in ("GetSubVector",) and k == "Vector" and len(ao) == 2 and ao[0] is not None and ao[1] is not None:
            ao[1].dims = [ao[0].dims[0]]
            return None
        if n in ("SetDataAndSize", "NewDataAndSize") and av and av[0] is not None and av[0][0] == "ptr":
            o.dims = [i[1]]
            self.view(st, av[0], o, l)
            return None
        if n in ("IsZeroBlock", "GetBlock", "SetBlock") and k in ("BlockMatrix", "BlockOperator") and len(i) >= 2:
            self.within(st, i[0], d[0], l, "block row of %s" % o.name)
            self.within(st, i[1], d[1], l, "block column of %s" % o.name)
            if n == "GetBlock" and ("f", "row_offsets") in st.env and None not in i[:2]:
                return self.new(st, "SparseMatrix", "%s block#%d" % (o.name, next(self.count)),
                                [self.extent(st.objs["row_offsets"], i[0]), self.extent(st.objs["col_offsets"], i[1])])
            if n == "GetBlock" and None not in i[:2]:
                return self.new(st, "SparseMatrix", "%s block#%d" % (o.name, next(self.count)),
                                [self.extent(Obj("Array<int>", o.name + ".RowOffsets", []), i[0]),
                                 self.extent(Obj("Array<int>", o.name + ".ColOffsets", []), i[1])])
            return None
        if n in ("RowOffsets", "ColOffsets") and k in ("BlockMatrix", "BlockOperator"):
            nm = "%s.%s" % (o.name, n)
            if nm not in st.objs:
                x = d[n == "ColOffsets"]
                self.new(st, "Array<int>", nm, [add(x, C(1)) if x is not None else None])
            return ("obj", nm)
        if e.get("cconst"):
            self.escape(st, e, av, o)
            return None
        if n not in ("Finalize", "Add", "Set", "Neg", "Print", "Destroy", "SetSubVector", "SetRow", "SetCol", "UseDevice"):
            o.dims = [None] * len(d)
        self.escape(st, e, av, o)
        return None

    def escape(self, st, e, av, keep=None):
        """What is handed to something unknown may have another size afterwards."""
        for p, v in zip(e.get("pt") or [], av):
            o = self.obj(st, v)
            if o is not None and o is not keep and p.rstrip().endswith(("&", "*")) and not p.startswith("const ") and o.kind in ("Vector", "DenseMatrix", "DenseTensor", "Array<int>", "Array2D", "MatrixBlocks"):
                o.dims = [None] * len(o.dims)

    def call(self, st, e):
        n = (e.get("callee") or "").split("::")[-1]
        if ir.is_noreturn_call(e) or e.get("noreturn"):
            st.facts.append(("false",))
            return None
        g = self.prog.callee(e)
        av = [self.ev(st, x) for x in e["a"] if x is not None]
        if n in ("max", "min") and len(av) == 2 and all(self.num(v) is not None for v in av):
            r = ("a", "int " + self.fresh("?"))
            x, y = self.num(av[0]), self.num(av[1])
            op = ">=" if n == "max" else "<="
            st.facts += [("cmp", op, r, x), ("cmp", op, r, y), ("or", ("cmp", "==", r, x), ("cmp", "==", r, y))]
            return ("int", r)
        if g is not None and g.get("body") and len(self.stack) < 4 and g not in self.stack and len(g["params"]) == len(av):
            return self.inline(st, g, av)
        if n in ("Mult", "AddMult_a", "MultAtB", "MultABt", "AddMultVWt", "MultVWt"):
            pass
        self.escape(st, e, av)
        return None

    def inline(self, st, g, av):
        keep = st.env
        env = {p["id"]: v for p, v in zip(g["params"], av)}
        for p, v in zip(g["params"], av):
            t = p["t"].rstrip()
            if v is not None and v[0] == "obj" and not t.endswith(("&", "*")) and cls(t) in KINDS:
                o = st.objs[v[1]]
                nm = self.fresh(o.name)
                c = st.objs[nm] = o.copy()
                c.elems = getattr(o, "elems", None) or o.name
                env[p["id"]] = ("obj", nm)
        st.env = env
        self.stack.append(g)
        self.returns.append([])
        js, self.jumps = self.jumps, [[]]
        line = self.line
        self.quiet += 1 if g["name"].split("::")[-1] in self.named else 0
        try:
            outs = self.block([st], g["body"]) + self.returns.pop()
        finally:
            self.quiet -= 1 if g["name"].split("::")[-1] in self.named else 0
            self.stack.pop()
            self.jumps = js
        self.line = line
        if not outs:
            st.facts.append(("false",))
            st.env = keep
            return None
        # one continuation: what all ends agree about
        r = outs[0].env.get("ret")
        if any(o.env.get("ret") != r for o in outs[1:]):
            if all(o.env.get("ret") is not None and o.env["ret"][0] == "bool" and o.env["ret"][1] in (("true",), ("false",)) for o in outs):
                base = len(st.facts)
                n0 = self.common(outs)
                f = ("or",) + tuple(("and",) + tuple(o.facts[n0:]) for o in outs if o.env["ret"][1] == ("true",))
                r = ("bool", f if len(f) > 1 else ("false",))
                st.facts = outs[0].facts[:n0]
                st.objs = outs[0].objs
                st.env = keep
                return r
            r = None
        n0 = self.common(outs)
        if len(outs) == 1:
            st.facts = outs[0].facts
        else:
            st.facts = outs[0].facts[:n0] + [("or",) + tuple(("and",) + tuple(o.facts[n0:]) for o in outs)]
        objs = outs[0].objs
        for o in outs[1:]:
            for k, x in objs.items():
                if k in o.objs and o.objs[k].dims != x.dims:
                    x.dims = [None] * len(x.dims)
        st.objs = objs
        st.ranges = outs[0].ranges
        st.env = keep
        return r

    named = ()

    @staticmethod
    def common(outs):
        n = 0
        while all(len(o.facts) > n for o in outs) and all(o.facts[n] == outs[0].facts[n] for o in outs[1:]):
            n += 1
        return n


# what a helper stands for: relations of its operands that must hold when it returns (parameter positions)
R_, C_, S_, I_, J_, K_ = (lambda i: ("rows", i)), (lambda i: ("cols", i)), (lambda i: ("size", i)), (lambda i: ("I", i)), (lambda i: ("J", i)), (lambda i: ("K", i))
RTAP = [(R_(0), R_(1)), (C_(1), R_(2))]
RELATIONS = {
    "Orthonormalize": [(R_(0), R_(1))],
    "RtAP": RTAP, "DenseRtAP": RTAP, "SparseRtAP": RTAP,
    "AddwRtAP": RTAP + [(R_(3), C_(0)), (C_(3), C_(2))],
    "MultSubMatrix": [(C_(0), S_(2))],
    "AddMultTransposeSubMatrix": [(S_(1), S_(2)), (C_(0), S_(3))],
    "MultTransposeSubMatrix": [(S_(1), S_(2)), (C_(0), S_(3))],
    "AddSubMatrixRtAP": [(S_(1), R_(2)), (S_(4), C_(2))],
    "TensorContract": [(S_(1), I_(0)), (S_(2), J_(0))],
    "TensorAddScaledContract": [(S_(2), I_(0)), (S_(3), J_(0))],
    "TensorMult": [(S_(1), K_(0)), (R_(2), I_(0)), (C_(2), J_(0))],
    "TensorAddMultOnJ": [(S_(1), J_(0)), (R_(2), I_(0)), (C_(2), K_(0))],
    "AddToBlockMatrix": [(S_(0), R_(2)), (S_(1), C_(2))],
}
BYAXIS = {
    "TensorAddMultTranspose": (1, 2, 3), "TensorAddScaledMultTranspose": (2, 3, 4),
}


def goals(name, f):
    ps = f["params"]

    def at(x):
        d, i = x
        return ("a", "%s(%s)" % (d, ps[i]["n"])) if i < len(ps) else None
    for x, y in RELATIONS.get(name, []):
        yield ("cmp", "==", at(x), at(y)), "%s of %s is %s of %s" % (x[0], ps[x[1]]["n"], y[0], ps[y[1]]["n"])
    if name in BYAXIS:
        x, ax, m = BYAXIS[name]
        a = ("a", "int " + ps[ax]["n"])
        n = lambda d, i: ("a", "%s(%s)" % (d, ps[i]["n"]))
        eq = lambda p, q: ("cmp", "==", p, q)
        yield ("or", ("and", eq(a, C(0)), eq(n("size", x), n("I", 0)), eq(n("rows", m), n("K", 0)), eq(n("cols", m), n("J", 0))),
               ("and", eq(a, C(1)), eq(n("size", x), n("J", 0)), eq(n("rows", m), n("K", 0)), eq(n("cols", m), n("I", 0)))), "the sizes fit the axis"


SKIP = re.compile(r"^(Print|Read|Write|CGOptimizer|Brent|Objective|Gradient|GetBasisElement)")


FILES = ("src/linalg_utils.cpp", "include/linalg_utils.hpp", "src/block_smoother.cpp", "include/block_smoother.hpp")


def targets(prog):
    for f in prog.funcs:
        if not f.get("body") or not (f["file"].endswith(FILES) or f["name"].endswith("::GetBasisElement")):
            continue
        n = f["name"].split("::")
        if f["name"].startswith("CAROM::") or any("CAROM" in p["t"] for p in f["params"]):
            continue
        yield f, n[-1]


def this_of(f):
    c = (f.get("cls") or "").split("::")[-1]
    if c == "MatrixBlocks":
        def t(w, st):
            st.env["this"] = w.new(st, "MatrixBlocks", "this")
        return t
    if c in ("BlockSmoother", "BlockGSSmoother", "BlockDSmoother"):
        return smoother(f, f["name"].split("::")[-1] == c)
    return None


def smoother(f, made):
    """The fields of a block smoother: as the constructor leaves them, or, in the constructor, as it sets them."""
    def t(w, st):
        if made:
            w.new(st, "Array<DenseMatrix *>", "diag_inv", [C(0)])
            w.new(st, "Array<int>", "row_offsets")
            w.new(st, "Array<int>", "col_offsets")
            for n in ("num_row_blocks", "num_col_blocks", "oper"):
                st.env["f", n] = None
            for n in ("diag_inv", "row_offsets", "col_offsets"):
                st.env["f", n] = ("obj", n)
            for i in f.get("inits") or []:
                n = i.get("field")
                if n in ("num_row_blocks", "num_col_blocks"):
                    st.env["f", n] = w.ev(st, i["e"])
                elif n == "oper":
                    e = ir.strip(i["e"])
                    st.env["f", n] = w.ev(st, e["e"] if e["k"] == "un" else e)
            return
        nb, n = ("a", "size num_row_blocks"), ("a", "size height")
        st.env["f", "num_row_blocks"] = st.env["f", "num_col_blocks"] = ("int", nb)
        st.env["f", "height"] = st.env["f", "width"] = ("int", n)
        st.env["f", "oper"] = w.new(st, "BlockMatrix", "oper", [nb, nb])
        st.env["f", "diag_inv"] = w.new(st, "Array<DenseMatrix *>", "diag_inv", [nb])
        for o in ("row_offsets", "col_offsets"):
            st.env["f", o] = w.new(st, "Array<int>", o, [add(nb, C(1))])
            c = ("ctr", "b")
            el = lambda k: ("elem", o, k)
            st.facts += [("all", c, C(0), add(nb, C(1)), ("cmp", ">=", el(c), C(0))),
                         ("all", c, C(0), add(nb, C(1)), ("cmp", "<=", el(c), n)),
                         ("all", c, C(0), nb, ("cmp", "<=", el(c), el(add(c, C(1)))))]
        # Height() and Width() of the smoother itself
        st.env["this"] = w.new(st, "Operator", "this", [n, n])
    return t


def text(v):
    return ", ".join("%s = %d" % (k[1] if k[0] != "elem" else "%s[%d]" % (k[1], k[2]), n) for k, n in sorted(v.items(), key=repr)
                     if k[0] != "ctr" and "#" not in str(k[1]) and n is not None)


def run(prog, R):
    R.rule = ("Every access to an element of an operand of a linear algebra helper is within it, and every call to a library routine that does not "
              "check gets operands that fit, for all sizes that pass the helper's own checks; a helper returns only for operands whose sizes fit. "
              "Readers of HDF5 data sets check the number of dimensions they take, and compare the size of each array they read back.")
    R.assumptions += ["distinct operands do not overlap",
                      "obligations not discharged by substitution are decided over sizes 0..3 and indices -1..4"]
    c19r.run(prog, R)
    seen = set()
    fs = list(targets(prog))
    names = {n for f, n in fs}
    for f, n in fs:
        key = (f["name"], f["type"], f["line"])
        if key in seen or f["name"].split("::")[-2:-1] == ["CGOptimizer"]:
            continue
        seen.add(key)
        w = Walk(prog, f, R.note)
        w.jumps, w.returns = [[]], [[]]
        w.named = names - {n}
        try:
            w.run(this_of(f))
        except Bail as e:
            R.note("not analysed: %s (%s)" % (f["name"], e))
            R.count("helpers_not_analysed")
            continue
        except (KeyError, TypeError, AttributeError, IndexError, RecursionError) as e:
            R.note("broke down: %s at %r" % (f["name"], e))
            R.count("analyses_broken_down")
            continue
        ends = w.ends + w.returns[0]
        R.count("helpers_analysed")
        R.count("paths", len(ends))
        R.count("accesses_with_unknown_position", w.unknown)
        obl = list(w.obl)
        for st in ends:
            for g, what in goals(n, f):
                obl.append((st.facts, st.ranges, g, f["line"], "REL " + what))
        told = set()
        for facts, ranges, g, line, what in obl:
            what = re.sub(r"#\d+", "", what)
            if ("false",) in facts:
                continue
            R.count("obligations")
            if prove(facts, ranges, g):
                R.count("proved_by_substitution")
                continue
            try:
                v = refute(facts, ranges, g)
            except Bail as e:
                R.note("undecided: %s: %s (%s)" % (f["name"], what, e))
                R.count("undecided")
                continue
            if v is None:
                R.count("hold_for_all_small_sizes")
                continue
            if (line, what) in told:
                continue
            told.add((line, what))
            rel = what.startswith("REL ")
            R.violation("%s:%s:%s" % (n, len(f["params"]), what), "%s:%s" % (f["file"].split("/repo/")[-1], line),
                        ("returns although it is not so that %s" % what[4:] if rel else "%s: not within or not matching" % what) +
                        " (e.g. %s)" % text(v), f["name"])


if __name__ == "__main__":
    import sys
    sys.exit(main("C19", run, {"helpers_analysed": 10}))
