"""C18: port and interface records keep the two sides apart.

Abstract interpretation over the side(s) a value stems from. A value's label is the set of sides it was computed from; sources are
the paired fields of plain records (Mesh1/Mesh2, ...), paired names in files and input (\"component1\"/\"component2\"), the columns of
the tables that hold pairs, the map of vertices from side 2 to side 1, and the parameters of the routines handing out a pair.
Labels flow through assignments, containers, helpers and loops (flow-sensitive, per branch; constant loops unrolled). A value that
stems from one side only must not be recorded for the other, nor meet a mesh, attribute list or named entry of the other.
"""
import os, re, sys
from . import formwalk, ir
from .report import main

NONE = frozenset()
COLS = {"be_pairs": {0: 1, 1: 2}, "interface": {0: 1, 1: 2, 2: 1, 3: 2}}
COLKIND = {"interface": {0: "Mesh", 1: "Mesh", 2: "Attr", 3: "Attr"}}
VMAP = re.compile(r"2to1$")
OUTS = {"GetComponentPair": {1: 1, 2: 2}, "GetRefPortInfo": {1: 1, 2: 2, 3: 1, 4: 2}}
POS = {"GetInterfaceTransformations": {0: 1, 1: 2, 3: 1, 4: 2}}
QUIET = ("printf", "mfem_error", "mfem_warning", "fprintf", "sprintf", "__assert_fail", "puts")
SIZES = ("Size", "NumRows", "NumCols", "size", "length", "capacity", "empty", "rank")
NUMBERING = ("GetFaceVertices", "GetBdrElementVertices", "GetElementVertices", "GetBdrFace", "GetBdrElementFace", "GetElementFaces")
IDENT = re.compile(r"'Mesh'|'Component'|idx:(mesh|comp|port)|GetComponent|GetRefPort|GetMesh|^p\d|comp_name")
CAP = 8


class V:
    __slots__ = ("alts", "const", "slots", "mark", "ref")

    def __init__(self, alts=None, const=None, slots=None, mark=None, ref=None):
        self.alts = alts if alts is not None else frozenset([(NONE, None, NONE)])
        self.const, self.slots, self.mark, self.ref = const, slots, mark, ref

    def key(self):
        return (self.alts, self.const, tuple(sorted((k, v.key()) for k, v in self.slots.items())) if self.slots else None,
                self.mark, self.ref)


def label(s, kind=None):
    return V(frozenset([(frozenset(s), kind, NONE)]))


NEUTRAL = V()


def cap(alts):
    if len(alts) <= CAP:
        return frozenset(alts)
    s = frozenset()
    for a in alts:
        s |= a[0]
    return frozenset([(s, None, NONE)])


def compatible(g, h):
    d = dict(g)
    return all(d.get(k, b) == b for k, b in h)


def join(a, b):
    if a is b or a is None or b is None:
        return a or b
    if a.key() == b.key():
        return a
    sl = None
    if a.slots or b.slots:
        sl = {}
        for k in set(a.slots or {}) | set(b.slots or {}):
            sl[k] = join((a.slots or {}).get(k, None), (b.slots or {}).get(k, None))
    return V(cap(a.alts | b.alts), a.const if a.const == b.const else None, sl, a.mark if a.mark == b.mark else a.mark or b.mark,
             a.ref if a.ref == b.ref else None)


def combine(vs, kind=None):
    """A value computed from all of these."""
    alts = {(NONE, kind, NONE)}
    for v in vs:
        new = set()
        for s, k, g in alts:
            for s2, k2, g2 in v.alts:
                if compatible(g, g2):
                    new.add((s | s2, kind, g | g2))
        alts = new if len(new) <= 32 else set(cap(new))
    if not alts:
        alts = {(NONE, kind, NONE)}
    return V(cap(alts))


class Env(dict):
    same = False
    path = NONE
    bindf = None

    def copy(self):
        e = Env(self)
        e.same, e.path, e.bindf = self.same, self.path, self.bindf
        return e


def merge(a, b):
    if a is None:
        return b
    if b is None:
        return a
    e = Env()
    for k in set(a) | set(b):
        e[k] = join(a.get(k), b.get(k))
    e.same = a.same and b.same
    e.path = a.path & b.path
    e.bindf = a.bindf if a.bindf == b.bindf else None
    return e


class Ctx:
    def __init__(self, f, depth, cls):
        self.f, self.depth, self.cls = f, depth, cls
        self.alias = {}
        self.ret = None
        self.brk, self.cont = [], []
        self.static = {}


class Interp:
    def __init__(self, prog, fields, literals, names):
        self.P, self.fields, self.literals, self.names = prog, fields, literals, names
        self.obl = {}
        self.steps = 0

    # ------------------------------------------------------------ entry
    def root(self, f):
        self.bind = {}
        for self.final in (False, True):
            self.steps = 0
            self.stack = []
            c = Ctx(f, 0, f.get("cls"))
            short = f["name"].split("::")[-1]
            env = Env()
            for n, p in enumerate(f["params"]):
                side = POS.get(short, {}).get(n) or OUTS.get(short, {}).get(n)
                k = (0, p["id"])
                env[k] = label([side], "p%d" % n) if short in POS and side and n < 2 else NEUTRAL
                if side:
                    c.static[p["id"]] = side
            self.uid = 0
            c.uid = 0
            self.run(f, c, env)

    def run(self, f, c, env):
        self.stack.append(c)
        self.c = c
        for i in f.get("inits") or []:
            if isinstance(i, dict) and i.get("e"):
                self.ev(i["e"], env)
        out = self.stmt(f["body"], env)
        self.stack.pop()
        self.c = self.stack[-1] if self.stack else None
        return out

    # ------------------------------------------------------------ labels
    def resolve(self, s, env):
        out = set()
        for x in s:
            if x in (1, 2):
                out.add(x)
                continue
            neg = False
            if isinstance(x, tuple) and x[0] == "f":
                return None
            while isinstance(x, tuple) and x[0] == "not":
                neg ^= True
                x = x[1]
            if isinstance(x, tuple):
                b = self.bind.get(x)
                b = next(iter(b.values())) if b else None       # what is recorded first decides
                if not b or len(b) != 1:
                    continue            # of no side in particular
                x = next(iter(b))
            out.add(3 - x if neg else x)
        return frozenset(out)

    def live(self, v, env):
        return [a for a in v.alts if compatible(env.path, a[2])]

    def say(self, rule, ok, line, msg, key):
        if not self.final:
            return
        k = (rule, self.c.f["id"], line, key)
        old = self.obl.get(k)
        if old is None or (old[0] and not ok):
            self.obl[k] = (ok, self.c.f, line, msg)

    def wrong(self, v, side, env):
        """Some alternative stems from the other side only."""
        if env.same:
            return False
        for s, k, g in self.live(v, env):
            r = self.resolve(s, env)
            if r == frozenset([3 - side]):
                return True
        return False

    def known(self, v, env):
        return any(self.resolve(s, env) for s, k, g in self.live(v, env))

    def record(self, rule, side, v, env, e, what):
        if not self.final:
            for s, k, g in v.alts:
                if len(s) == 1 and isinstance(next(iter(s)), tuple) and next(iter(s))[0] == "sym":
                    base = re.sub(r"[12]$", "", what)
                    self.bind.setdefault(next(iter(s)), {}).setdefault(base, set()).add(side)
            return
        if self.known(v, env):
            bad = self.wrong(v, side, env)
            self.say(rule, not bad, self.line, "%s is given what stems from side %d" % (what, 3 - side) if bad else what, what)

    def agree(self, rule, vs, env, what):
        """What meets here stems from one side: some combination of alternatives does."""
        combos = [(None, NONE, False)]
        n = 0
        for v in vs:
            new = set()
            lv = [(self.resolve(s, env), g) for s, k, g in self.live(v, env)]
            lv = [(r if r and len(r) == 1 else None, g) for r, g in lv]
            if any(r for r, g in lv):
                n += 1
            for side, g0, bad in combos:
                for r, g in lv:
                    if compatible(g0, g):
                        new.add((side or r, g0 | g, bad or bool(r and side and r != side)))
            combos = new
            if len(combos) > 64:
                return
        if n >= 2 and combos:
            bad = all(b for s, g, b in combos) and not env.same
            self.say(rule, not bad, self.line, "%s: the two sides meet" % what if bad else what, what)

    def lit(self, s):
        return self.literals.get(s)

    # ------------------------------------------------------------ places
    def place(self, e, env):
        """("var", key) ("slot", key, n) ("elem", key) ("field", name, rec) ("col", table, n) ("vmap", keyvalue) ("val", V)"""
        k = e["k"]
        if k == "cast":
            return self.place(e["e"], env)
        if k == "other" and len(e.get("a", [])) == 1 and e["a"][0] is not None:
            return self.place(e["a"][0], env)
        if k == "ref" and e.get("dk") in ("local", "param", "slocal"):
            return self.var(e)
        if k == "mem":
            return self.field(e, env)
        if k == "un" and e["op"] == "*":
            v = self.ev(e["e"], env)
            if v.ref:
                return v.ref
            return ("val", v)
        if k in ("sub",):
            return self.elem(e["x"], [e["y"]], env)
        if k == "opcall" and e["op"] in ("[]", "()") and len(e["a"]) >= 2:
            return self.elem(e["a"][0], e["a"][1:], env)
        if k == "opcall" and e["op"] == "*" and len(e["a"]) == 1:
            return ("val", self.ev(e["a"][0], env))
        if k == "mcall" and (e.get("callee") or "").split("::")[-1] == "at" and len(e["a"]) == 1:
            return self.elem(e["obj"], e["a"], env)
        if k == "cond":
            return ("val", self.ev(e, env))
        return ("val", self.ev(e, env))

    def var(self, e):
        for c in reversed(self.stack):
            if e["id"] in c.alias:
                return c.alias[e["id"]]
            if e["id"] in c.static and c is self.c:
                return ("var", (c.uid, e["id"]), c.static[e["id"]])
            return ("var", (c.uid, e["id"]))

    def field(self, e, env):
        b = e.get("b")
        n = e["n"]
        if b is None or b["k"] == "this":
            if VMAP.search(n):
                return ("val", V(mark=("vmap",)))
            return ("this", n)
        bv = self.ev(b, env)
        if bv.mark and bv.mark[0] == "vmapit" and n in ("first", "second"):
            return ("val", label([2 if n == "first" else 1], "vmap"))
        if VMAP.search(n):
            return ("val", V(mark=("vmap",)))
        if n in COLS:
            return ("val", V(mark=("table", n)))
        if n in self.fields:
            return ("field", n, (e.get("cls") or "").split("::")[-1], self.fields[n])
        if n == "element":
            return ("val", V(mark=("felem",)))
        if bv.mark and bv.mark[0] == "felem" and len(bv.mark) == 2 and n == "index":
            return ("val", V(mark=bv.mark))
        p = self.place(b, env) if b["k"] in ("ref",) else None
        if p and p[0] == "var" and not e.get("arrow"):
            return ("val", V(combine([bv], n).alts))
        return ("val", combine([bv], n))

    def elem(self, base, idx, env):
        b = base
        p = self.place(b, env)
        bv = self.get(p, env)
        ix = [self.ev(i, env) for i in idx]
        if bv.mark:
            m = bv.mark
            if m[0] == "vmap":
                return ("vmap", ix[0], idx[0])
            if m[0] == "table":
                if len(ix) == 2:
                    return ("col", m[1], ix[1].const)
                return ("val", V(mark=("row", m[1])))
            if m[0] == "row":
                return ("col", m[1], ix[-1].const)
            if m[0] == "felem" and len(m) == 1 and ix[-1].const is not None:
                return ("val", V(mark=("felem", ix[-1].const)))
        if b["k"] in ("un", "opcall") and b.get("op") == "*" and p[0] == "val":
            self.agree("W4", [bv] + ix, env, ir.show(base) + "[...]")
        for i in ix:
            if isinstance(i.const, str) and self.lit(i.const):
                lv = label([self.lit(i.const)], "name")
                return ("named", combine([bv, lv]), ir.show(base) + "[" + i.const + "]")
        if p[0] == "named":
            return p
        if p[0] in ("var",):
            if len(ix) == 1 and isinstance(ix[0].const, int):
                return ("slot", p[1], ix[0].const)
            return ("elem", p[1], ix)
        name = None
        if p[0] == "this":
            name = "idx:" + p[1]
        else:
            ks = {k for s, k, g in bv.alts}
            name = next(iter(ks)) if len(ks) == 1 else None
            name = name and (name if name.startswith("idx:") or name.startswith("n:") else name)
        return ("val", combine([V(bv.alts)] + [V(i.alts) for i in ix], name))

    def get(self, p, env):
        k = p[0]
        if k == "var":
            return env.get(p[1], NEUTRAL)
        if k == "slot":
            v = env.get(p[1], NEUTRAL)
            if v.slots and p[2] in v.slots:
                return v.slots[p[2]]
            return V(v.alts)
        if k == "elem":
            v = env.get(p[1], NEUTRAL)
            out = V(v.alts)
            for s in (v.slots or {}).values():
                out = join(out, s)
            if not any(a[0] for a in v.alts) and not v.slots:
                return V(combine([V(i.alts) for i in p[2]]).alts)
            return V(out.alts)
        if k == "field":
            return label([p[3]], ("fld", p[1][:-1], p[2]))
        if k == "col":
            t = COLS[p[1]]
            if p[2] in t:
                return label([t[p[2]]], ("col", p[1], COLKIND.get(p[1], {}).get(p[2], "")))
            return NEUTRAL
        if k == "vmap":
            self.vkey(p, env)
            return V(combine([V(p[1].alts), label([1]), label([2])], "vmap").alts)
        if k == "this":
            return V(frozenset([(NONE, "idx:" + p[1], NONE)]))
        if k == "named":
            return p[1]
        return p[1]

    def vkey(self, p, env):
        if self.known(p[1], env):
            bad = self.wrong(p[1], 2, env)
            self.say("W3", not bad, self.line, "the vertex map of side 2 is asked for a vertex of side 1: %s" % ir.show(p[2]) if bad
                     else "vertex map at %s" % ir.show(p[2]), "key " + ir.show(p[2]))

    def put(self, p, v, env, e, add=False):
        k = p[0]
        if k == "var":
            if len(p) > 2:
                self.record("W1", p[2], v, env, e, "what is handed out for side %d" % p[2])
            self.forget(p[1], env)
            nv = v if not add else self.added(env.get(p[1], NEUTRAL), v)
            env[p[1]] = self.guarded(nv, env)
        elif k == "slot":
            o = env.get(p[1], NEUTRAL)
            sl = dict(o.slots or {})
            sl[p[2]] = self.guarded(V(v.alts, v.const), env)
            env[p[1]] = V(o.alts, None, sl, o.mark, o.ref)
        elif k == "elem":
            o = env.get(p[1], NEUTRAL)
            if o.mark is None or True:
                env[p[1]] = V(self.guarded(V(v.alts), env).alts, None, None, o.mark, o.ref)
        elif k == "field":
            self.record("W1", p[3], v, env, e, "%s.%s" % (p[2], p[1]))
            self.kind(p, v, env)
        elif k == "col" and p[2] in COLS[p[1]]:
            self.record("W2", COLS[p[1]][p[2]], v, env, e, "%s column %d" % (p[1], p[2]))
        elif k == "vmap":
            self.vkey(p, env)
            if self.known(v, env):
                bad = self.wrong(v, 1, env)
                self.say("W3", not bad, self.line, "a vertex of side 2 is recorded as one of side 1" if bad else "vertex map value", "value")
        elif k == "named":
            self.agree("W4", [p[1], v], env, p[2])

    def kind(self, p, v, env):
        for s, k, g in self.live(v, env):
            if isinstance(k, tuple) and k[0] == "col" and k[2] and p[1][:-1] in ("Mesh", "Attr") and k[2] != p[1][:-1]:
                self.say("W1", False, self.line, "%s.%s is given the %s column" % (p[2], p[1], k[2]), "kind " + p[1])

    def guarded(self, v, env):
        """The value holds on this path: its alternatives carry the path's conditions."""
        if env.bindf is not None and any(isinstance(x, tuple) and x[0] == "f" for s, k, g in v.alts for x in s):
            lab, n = env.bindf
            lab = next(iter(lab))
            v = V(frozenset((frozenset((lab if x[1] == n else ("not", lab)) if isinstance(x, tuple) and x[0] == "f" else x for x in s), k, g)
                            for s, k, g in v.alts), v.const, v.slots, v.mark, v.ref)
        if not env.path:
            return v
        return V(frozenset((s, k, self.few(g | env.path)) for s, k, g in v.alts if compatible(env.path, g)) or v.alts,
                 v.const, v.slots, v.mark, v.ref)

    @staticmethod
    def few(g):
        return g if len(g) <= 6 else frozenset(sorted(g, key=str)[:6])

    def added(self, o, v):
        if not any(a[0] for a in o.alts):
            return V(v.alts, None, None, o.mark, o.ref)
        return V(cap(o.alts | v.alts), None, None, o.mark, o.ref)

    def forget(self, key, env):
        """A variable changes: conditions about it no longer say anything."""
        tag = key
        def dep(g):
            return frozenset(x for x in g if tag not in x[0][1])
        if any(tag in x[0][1] for x in env.path):
            env.path = dep(env.path)
        for k, v in list(env.items()):
            if any(tag in x[0][1] for s, kk, g in v.alts for x in g):
                env[k] = V(cap(frozenset((s, kk, dep(g)) for s, kk, g in v.alts)), v.const, v.slots, v.mark, v.ref)

    # ------------------------------------------------------------ expressions
    def ev(self, e, env):
        if e is None:
            return NEUTRAL
        self.steps += 1
        if self.steps > 400000:
            raise RecursionError("too long")
        if e.get("l"):
            self.line = e["l"]
        k = e["k"]
        if k in ("int", "char"):
            try:
                return V(const=int(e["v"]))
            except (TypeError, ValueError):
                return NEUTRAL
        if k == "bool":
            return V(const=int(bool(e["v"])))
        if k == "zero":
            return V(const=0)
        if k == "str":
            s = str(e["v"])
            r = self.lit(s)
            v = label([r], "name") if r else V()
            return V(v.alts, s)
        if k in ("float", "null", "this", "sizeof", "lambda"):
            return NEUTRAL
        if k == "cast":
            return self.ev(e["e"], env)
        if k == "ref":
            if e.get("dk") in ("local", "param", "slocal"):
                return self.get(self.var(e), env)
            if "cv" in e:
                return V(const=e["cv"])
            return NEUTRAL
        if k == "mem":
            if e.get("dk") == "smember":
                return NEUTRAL
            return self.get(self.field(e, env), env)
        if k == "sub":
            return self.get(self.place(e, env), env)
        if k == "un":
            if e["op"] == "&":
                p = self.place(e["e"], env)
                v = self.get(p, env)
                return V(v.alts, None, v.slots, v.mark, p if p[0] in ("var", "slot", "elem", "field", "col") else None)
            if e["op"] == "*":
                return self.get(self.place(e, env), env)
            if e["op"] in ("++", "--"):
                p = self.place(e["e"], env)
                v = self.get(p, env)
                if p[0] == "var":
                    self.forget(p[1], env)
                    env[p[1]] = V(v.alts, None if v.const is None else v.const + (1 if e["op"] == "++" else -1), None, v.mark)
                return v
            v = self.ev(e["e"], env)
            if e["op"] == "-" and isinstance(v.const, int):
                return V(v.alts, -v.const)
            if e["op"] == "!":
                return V(const=None if not isinstance(v.const, int) else int(not v.const))
            return V(combine([v]).alts)
        if k == "bin":
            return self.binary(e, env)
        if k == "assign":
            v = self.ev(e["y"], env)
            p = self.place(e["x"], env)
            if e["op"] != "=":
                o = self.get(p, env)
                v = V(combine([V(o.alts), V(v.alts)]).alts)
            self.put(p, v, env, e)
            return v
        if k == "cond":
            if ir.as_assert(e) is not None:
                self.ev(e["c"], env)
                return NEUTRAL
            c = self.ev(e["c"], env)
            if isinstance(c.const, int):
                return self.ev(e["x"] if c.const else e["y"], env)
            a, b = env.copy(), env.copy()
            self.assume(e["c"], True, a)
            self.assume(e["c"], False, b)
            x = self.guarded(self.ev(e["x"], a), a)
            y = self.guarded(self.ev(e["y"], b), b)
            env.update(merge(a, b))
            return join(x, y)
        if k == "call":
            return self.call(e, None, env)
        if k == "mcall":
            return self.call(e, e["obj"], env)
        if k == "opcall":
            return self.opcall(e, env)
        if k in ("ctor", "uctor"):
            return self.ctor(e, env)
        if k == "new":
            v = self.ev(e.get("init"), env) if e.get("init") else NEUTRAL
            return NEUTRAL      # a new object belongs to no side yet
        if k == "ilist":
            return self.ilist(e, env)
        vs = [self.ev(x, env) for x in ir.kids(e)]
        if k == "other" and len(vs) == 1:
            return vs[0]
        return V(combine([V(v.alts) for v in vs]).alts) if vs else NEUTRAL

    def ilist(self, e, env):
        t = re.sub(r"^const |[&* ]+$", "", e.get("t", ""))
        r = self.P.records.get(t) or self.P.records.get(t.split("::")[-1])
        vs = [self.ev(x, env) if x is not None else NEUTRAL for x in e["a"]]
        if r and not r.get("bases"):
            fs = [f["n"] for f in r.get("fields", [])]
            for n, (f, v) in enumerate(zip(fs, vs)):
                if f in self.fields:
                    self.put(("field", f, t.split("::")[-1], self.fields[f]), v, env, e)
            return NEUTRAL
        return V(combine([V(v.alts) for v in vs]).alts, None, {n: V(v.alts, v.const) for n, v in enumerate(vs)})

    def ctor(self, e, env):
        a = [x for x in e["a"] if x is not None]
        if len(a) == 1:
            v = self.ev(a[0], env)
            if "cconst" not in e and isinstance(v.const, int) and "Array" in (e.get("t") or ""):
                return NEUTRAL
            return v
        vs = [self.ev(x, env) for x in a]
        t = e.get("t", "")
        if re.search(r"string", t) and vs:
            return vs[0]
        if re.search(r"\b(Array|Array2D|vector|Vector|DenseMatrix|DenseTensor|SparseMatrix)\b", t):
            vs = [v for v, x in zip(vs, a) if "int" not in (x.get("t") or "")]
        return V(combine([V(v.alts) for v in vs]).alts) if vs else NEUTRAL

    def binary(self, e, env):
        op = e["op"]
        if op in ("&&", "||"):
            x = self.ev(e["x"], env)
            b = env.copy()
            self.assume(e["x"], op == "&&", b)
            y = self.ev(e["y"], b)
            if isinstance(x.const, int) and (bool(x.const) != (op == "&&")):
                return V(const=int(bool(x.const)))
            if isinstance(x.const, int) and isinstance(y.const, int):
                return V(const=int(bool(y.const)))
            return NEUTRAL
        x, y = self.ev(e["x"], env), self.ev(e["y"], env)
        if op in ("==", "!=", "<", ">", "<=", ">="):
            if op in ("==", "!="):
                self.compare(e, x, y, env)
            if isinstance(x.const, int) and isinstance(y.const, int):
                return V(const=int({"==": x.const == y.const, "!=": x.const != y.const, "<": x.const < y.const,
                                    ">": x.const > y.const, "<=": x.const <= y.const, ">=": x.const >= y.const}[op]))
            return NEUTRAL
        if isinstance(x.const, int) and isinstance(y.const, int) and op in ("+", "-", "*"):
            return V(combine([x, y]).alts, {"+": x.const + y.const, "-": x.const - y.const, "*": x.const * y.const}[op])
        ks = {k for s, k, g in x.alts if s} | {k for s, k, g in y.alts if s}
        return V(combine([V(x.alts), V(y.alts)], next(iter(ks)) if len(ks) == 1 else None).alts)

    def compare(self, e, x, y, env):
        """Values of the two sides are compared: they are the same thing seen from either side, not a numbering of one mesh."""
        if not re.match(r"^(const )?(int|long|unsigned|size_t)", ir.strip(e["x"]).get("t", "int")):
            return
        bad = ok = 0
        for s, k, g in self.live(x, env):
            for s2, k2, g2 in self.live(y, env):
                if not compatible(g, g2):
                    continue
                r, r2 = self.resolve(s, env), self.resolve(s2, env)
                if not r or not r2:
                    continue
                if len(r) == len(r2) == 1 and r != r2:
                    if k == k2 and not (isinstance(k, str) and k in NUMBERING):
                        ok += 1
                    else:
                        bad += 1
                else:
                    ok += 1
        if bad or ok:
            self.say("W6", not (bad and not ok) or env.same, self.line, "%s: the two sides are compared" % ir.show(e) if bad else
                     ir.show(e), ir.show(e))

    def assume(self, c, truth, env):
        c0 = c
        c = ir.strip(c)
        while c["k"] == "un" and c["op"] == "!":
            c, truth = ir.strip(c["e"]), not truth
        if c["k"] == "bin" and c["op"] in ("&&", "||"):
            if (c["op"] == "&&") == truth:
                self.assume(c["x"], truth, env)
                self.assume(c["y"], truth, env)
            return
        if c["k"] == "cast":
            return self.assume(c["e"], truth, env)
        if c["k"] == "bin" and c["op"] in ("==", "!="):
            eq = (c["op"] == "==") == truth
            fin, self.final = self.final, False
            b0 = {k: {n: set(w) for n, w in v.items()} for k, v in self.bind.items()}
            x, y = self.ev(c["x"], env.copy()), self.ev(c["y"], env.copy())
            self.final, self.bind = fin, b0 if not fin else self.bind
            for a, b in ((x, y), (y, x)):
                if b.mark and b.mark[0] == "felem" and len(b.mark) == 2 and len(a.alts) == 1:
                    lab = next(iter(a.alts))[0]
                    if len(lab) == 1:
                        env.bindf = (lab, b.mark[1] if eq else 1 - b.mark[1])
                        for kk, vv in list(env.items()):
                            nv = self.guarded(vv, env)
                            if nv is not vv:
                                env[kk] = nv
            if eq:
                rx = {self.resolve(s, env) for s, k, g in self.live(x, env)}
                ry = {self.resolve(s, env) for s, k, g in self.live(y, env)}
                if len(rx) == 1 and len(ry) == 1:
                    rx, ry = next(iter(rx)), next(iter(ry))
                    if rx and ry and len(rx) == len(ry) == 1 and rx != ry and all(IDENT.search(str(k)) for s, k, g in x.alts | y.alts):
                        env.same = True
        ids = set()
        simple = True
        for z in ir.walk(c):
            if z["k"] in ("assign", "call", "lambda") or z["k"] == "un" and z["op"] in ("++", "--"):
                simple = False
            if z["k"] == "mcall" and not z.get("cconst"):
                simple = False
            if z["k"] == "ref" and z.get("dk") in ("local", "param", "slocal"):
                p = self.var(z)
                if p[0] in ("var", "slot", "elem"):
                    ids.add(p[1])
        if simple and ids and len(env.path) < 5:
            op = {"!=": "==", ">=": "<", "<=": ">"}.get(c.get("op")) if c["k"] == "bin" else None
            txt = ir.show(c)
            if op:
                txt, truth = ir.show(dict(c, op=op)), not truth
            env.path = env.path | frozenset([((txt, frozenset(ids)), truth)])

    # ------------------------------------------------------------ calls
    def opcall(self, e, env):
        op, a = e["op"], e["a"]
        if op in ("[]", "()") and len(a) >= 2 or op == "*" and len(a) == 1:
            if op == "()" and "Array" not in (e.get("cls") or "") and "Matrix" not in (e.get("cls") or ""):
                return self.call(e, a[0], env, a[1:])
            if op == "*":
                v = self.ev(a[0], env)
                return self.get(v.ref, env) if v.ref else v
            return self.get(self.place(e, env), env)
        if op == "->":
            return self.ev(a[0], env)
        if op in ("=", "+=") and len(a) == 2:
            v = self.ev(a[1], env)
            p = self.place(a[0], env)
            if op == "+=":
                v = V(combine([V(self.get(p, env).alts), V(v.alts)]).alts)
            elif isinstance(v.const, (int,)) and not self.known(v, env) and re.search(r"Array|Vector|Matrix", e.get("cls") or ""):
                return NEUTRAL      # a constant in every entry
            self.put(p, v, env, e)
            return v
        if op in ("==", "!=", "<", ">"):
            for x in a:
                self.ev(x, env)
            return NEUTRAL
        if op in ("++", "--"):
            return self.ev(a[0], env)
        if op == "<<" or op == ">>":
            for x in a:
                self.ev(x, env)
            return NEUTRAL
        vs = [self.ev(x, env) for x in a]
        return V(combine([V(v.alts) for v in vs]).alts)

    def call(self, e, obj, env, args=None):
        args = [x for x in (e["a"] if args is None else args) if x is not None]
        name = (e.get("callee") or (e.get("fn") or {}).get("n") or "").split("::")[-1].split("<")[0]
        cls = e.get("cls") or ""
        short = cls.split("::")[-1].split("<")[0]
        line = e.get("l") or self.line
        o = self.ev(obj, env) if obj is not None else NEUTRAL
        if name in QUIET:
            for x in args:
                self.ev(x, env)
            return NEUTRAL
        g = self.P.callee(e)
        if g is not None and g.get("body") and self.inlined(g) and name not in OUTS and name not in POS:
            return self.inline(g, e, args, env)
        vs = [self.ev(x, env) for x in args]
        self.line = line
        if name in SIZES:
            return NEUTRAL
        m = o.mark
        if m:
            if m[0] == "vmap":
                if name in ("count", "at", "find", "erase", "contains") and vs:
                    p = ("vmap", vs[0], args[0])
                    self.vkey(p, env)
                    if name == "at":
                        return self.get(p, env)
                    return V(mark=("vmapit",)) if name == "find" else NEUTRAL
                if name in ("begin", "end", "cbegin", "cend"):
                    return V(mark=("vmapit",))
                if name in ("emplace", "insert", "insert_or_assign", "try_emplace") and len(vs) == 2:
                    self.put(("vmap", vs[0], args[0]), vs[1], env, e)
                    return NEUTRAL
            if m[0] == "vmapit":
                return o
            if m[0] == "table":
                return V(mark=("row", m[1])) if name == "GetRow" else NEUTRAL
        mesh = "Mesh" in short
        if mesh and obj is not None and name not in ("GetTriOrientation", "GetQuadOrientation"):
            self.agree("W4", [V(o.alts)] + [V(v.alts) for n, v in enumerate(vs)
                                                 if not self.is_out(e, n) or ir.strip(args[n])["k"] == "mem"], env, "%s->%s(%s)" % (ir.show(obj), name, ", ".join(
                ir.show(x) for x in args if not self.is_out(e, args.index(x)))))
        elif name == "Find" and obj is not None and len(vs) == 1:
            self.agree("W4", [V(o.alts), V(vs[0].alts)], env, "%s.Find(%s)" % (ir.show(obj), ir.show(args[0])))
        if name in ("GetTriOrientation", "GetQuadOrientation") and len(vs) == 2:
            self.agree("W6", [V(vs[0].alts), V(vs[1].alts)], env, name)
            for v, s, w in ((vs[0], 1, "base"), (vs[1], 2, "test")):
                if self.known(v, env):
                    bad = self.wrong(v, s, env)
                    self.say("W4", not bad, line, "%s: the %s vertices are of side %d" % (name, w, 3 - s if bad else s), name + w)
            return label([2], name)
        for n, s in POS.get(name, {}).items():
            if n < len(vs) and n < 2:
                if self.known(vs[n], env):
                    bad = self.wrong(vs[n], s, env)
                    self.say("W4", not bad, line, "%s: argument %d is of side %d" % (name, n + 1, 3 - s if bad else s), "%s %d" % (name, n))
        if name in OUTS or name in POS:
            for n, s in (OUTS.get(name) or {k: v for k, v in POS[name].items() if k > 2}).items():
                if n < len(args):
                    self.put(self.place(args[n], env), label([s], "%s%d" % (name, n - n % 2 if name in POS else (n - 1) // 2)), env, e)
            return NEUTRAL
        # entries by name
        named = [v for v in vs if isinstance(v.const, str)]
        tbl = [v.const for v in named if v.const in COLS]
        if any(self.lit(v.const) for v in named) and "Read" not in name and "Get" not in name:
            self.agree("W4", [V(v.alts) for v in vs], env, "%s(%s)" % (name, ", ".join(ir.show(x) for x in args)))
        if name in ("Append", "push_back", "emplace_back", "Union") and obj is not None and len(vs) == 1:
            p = self.place(obj, env)
            if p[0] == "val" and o.ref:
                p = o.ref
            if p[0] == "var":
                self.put(("var", p[1]), V(vs[0].alts), env, e, add=True)
            return NEUTRAL
        kind = name
        if name in ("Read", "GetData", "c_str", "data", "get", "HostRead", "Write", "Last", "GetRow", "front", "back", "max", "min", "abs"):
            ks = {k for s, k, g in o.alts | frozenset(a for v in vs for a in v.alts)}
            kind = next((k for k in ks if k), None)
            if name == "GetRow" and m and m[0] == "table":
                return V(mark=("row", m[1]))
        outs = [n for n in range(len(args)) if self.is_out(e, n)]
        ins = [V(v.alts) for n, v in enumerate(vs) if n not in outs]
        r = combine([V(o.alts)] + ins, kind)
        for n in outs:
            x = ir.strip(args[n])
            p = None
            if x["k"] == "un" and x["op"] == "&":
                p = self.place(x["e"], env)
            elif "*" in (self.pt(e, n)):
                p = vs[n].ref
            else:
                p = self.place(args[n], env)
            if p is None:
                continue
            v = r
            if tbl and "Read" in name:
                v = V(mark=("table", tbl[0]))
            elif name == "GetFaceInfos" and r.alts and not self.anysided(r):
                v = V(frozenset([(frozenset([("f", outs.index(n))]), "GetFaceInfos", NONE)]))
            if p[0] == "named" or p[0] in ("var", "slot", "elem"):
                self.put(p if p[0] != "var" else p, v, env, e)
            elif p[0] in ("field", "col", "vmap"):
                self.put(p, v, env, e)
        if name in ("Sort", "Reverse", "SetSize", "DeleteAll", "Unique", "reserve", "resize"):
            return NEUTRAL
        return r

    def anysided(self, v):
        return any(1 in s or 2 in s for s, k, g in v.alts)

    def pt(self, e, n):
        pts = e.get("pt") or []
        return pts[n] if n < len(pts) else ""

    def is_out(self, e, n):
        t = self.pt(e, n).strip()
        if t.endswith("&&") or re.match(r"^(hid_t|long|herr_t) ?&", t):
            return False
        if t.endswith("&"):
            return not t.startswith("const ") and not re.search(r"\bconst ?&$", t)
        if t.endswith("*"):
            return not t.startswith("const ") and bool(re.match(r"^(int|double|long|bool|unsigned|.*Array|.*Vector|.*string)", t))
        return False

    def inlined(self, g):
        if len(self.stack) > 4 or any(c.f is g for c in self.stack):
            return False
        return g["file"] == self.c.f["file"] or (g.get("cls") and g.get("cls") == self.c.f.get("cls"))

    def inline(self, g, e, args, env):
        vs = [self.ev(x, env) for x in args]
        self.uid += 1
        c = Ctx(g, len(self.stack), g.get("cls"))
        c.uid = self.uid
        caller = self.c
        places = []
        for n, p in enumerate(g["params"]):
            if n >= len(args):
                break
            t = p["t"].strip()
            if t.endswith("&") and not t.endswith("&&"):
                pl = self.place(args[n], env)
                if pl[0] in ("var", "slot", "elem", "field", "col", "vmap", "named"):
                    c.alias[p["id"]] = pl
                    continue
            env[(c.uid, p["id"])] = vs[n]
        line = self.line
        saved = env.copy()
        self.stack.append(c)
        self.c = c
        out = self.stmt(g["body"], env)
        self.stack.pop()
        self.c = caller
        self.line = line
        e2 = out
        rv = None
        for v, en in c.ret or []:
            e2 = merge(e2, en)
            rv = join(rv, self.guarded(v, en) if en.path - saved.path else v)
        if e2 is None:
            e2 = saved
        env.clear()
        env.update(e2)
        env.path, env.same, env.bindf = saved.path, saved.same, saved.bindf
        return rv or NEUTRAL

    # ------------------------------------------------------------ statements
    def stmt(self, s, env):
        """Environment after the statement; None when it is not left at its end."""
        if s is None or env is None:
            return env
        if s.get("l"):
            self.line = s["l"]
        k = s["k"]
        if k == "block":
            for x in s["s"]:
                env = self.stmt(x, env)
                if env is None:
                    return None
            return env
        if k == "expr":
            self.ev(s["e"], env)
            if self.noreturn(s["e"]):
                return None
            return env
        if k == "decl":
            for v in s["v"]:
                self.decl(v, env)
            return env
        if k == "if":
            if s.get("init"):
                env = self.stmt(s["init"], env)
            if s.get("cvar"):
                self.decl(s["cvar"], env)
            c = self.ev(s["c"], env)
            if isinstance(c.const, int):
                return self.stmt(s["th"] if c.const else s["el"], env)
            a, b = env.copy(), env
            b = env.copy()
            self.assume(s["c"], True, a)
            self.assume(s["c"], False, b)
            a = self.stmt(s["th"], a)
            b = self.stmt(s["el"], b)
            return merge(a, b)
        if k == "for":
            env = self.stmt(s.get("init"), env)
            n = 0
            e2 = env.copy()
            if self.constant(s, e2):
                while True:
                    c = self.ev(s["c"], env) if s["c"] else V(const=1)
                    if not isinstance(c.const, int):
                        break
                    if not c.const or n > 8:
                        return env
                    n += 1
                    env = self.body(s, env)
                    if env is None:
                        return None
                    if s["inc"]:
                        self.ev(s["inc"], env)
            self.counter(s, env)
            return self.rounds(s, env)
        if k in ("while", "do"):
            return self.rounds(s, env)
        if k == "rfor":
            r = self.ev(s["range"], env)
            v = s["var"]
            key = (self.c.uid, v["id"])
            if r.mark and r.mark[0] == "vmap":
                env[key] = V(mark=("vmapit",))
            elif r.mark and r.mark[0] == "table":
                env[key] = V(mark=("row", r.mark[1]))
            else:
                out = V(r.alts)
                for x in (r.slots or {}).values():
                    out = join(out, x)
                env[key] = V(out.alts)
            for b in v.get("bind") or []:
                pass
            return self.rounds(s, env)
        if k == "return":
            v = self.ev(s["e"], env) if s["e"] is not None else NEUTRAL
            if self.c.ret is None:
                self.c.ret = []
            self.c.ret.append((v, env))
            return None
        if k == "break":
            if self.c.brk:
                self.c.brk[-1].append(env)
            return None
        if k == "continue":
            if self.c.cont:
                self.c.cont[-1].append(env)
            return None
        if k == "switch":
            self.ev(s["c"], env)
            self.c.brk.append([])
            body = s["body"]["s"] if s["body"]["k"] == "block" else [s["body"]]
            cur, dflt = None, False
            for x in body:
                lab = False
                y = x
                while y is not None and y["k"] in ("case", "default"):
                    dflt |= y["k"] == "default"
                    lab = True
                    y = y["s"]
                if lab:
                    cur = merge(cur, env.copy())
                cur = self.stmt(y, cur)
            out = cur
            for b in self.c.brk.pop():
                out = merge(out, b)
            return out if dflt else merge(out, env)
        if k in ("case", "default", "label"):
            return self.stmt(s["s"], env)
        if k == "try":
            return self.stmt(s["body"], env)
        return env

    def noreturn(self, e):
        x = ir.strip(e)
        return x is not None and x["k"] in ("call", "mcall") and (x.get("noreturn") or (x.get("callee") or "").split("::")[-1] in ("mfem_error", "exit", "abort"))

    def decl(self, v, env):
        key = (self.c.uid, v["id"])
        init = v.get("init")
        t = v["t"].strip()
        if init is None:
            env[key] = NEUTRAL
            return
        if t.endswith("&") and not t.endswith("&&"):
            p = self.place(init, env)
            if p[0] in ("var", "slot", "elem", "field", "col", "vmap", "named"):
                self.c.alias[v["id"]] = p
                return
        x = self.ev(init, env)
        self.forget(key, env)
        env[key] = self.guarded(x, env)

    def constant(self, s, env):
        c = self.ev(s["c"], env) if s["c"] else NEUTRAL
        return isinstance(c.const, int)

    def counter(self, s, env):
        """A counting variable stems from the side its bound does; from none, it may be either."""
        i = s.get("init")
        vs = i["v"] if i and i["k"] == "decl" else []
        c = ir.strip(s["c"]) if s["c"] else None
        for v in vs:
            key = (self.c.uid, v["id"])
            if not re.match(r"^(const )?(int|unsigned|size_t|long|std::size_t)", v["t"]):
                continue
            b = NEUTRAL
            if c is not None and c["k"] == "bin" and c["op"] in ("<", "<=", "!=", ">", ">="):
                for x, y in ((c["x"], c["y"]), (c["y"], c["x"])):
                    x = ir.strip(x)
                    while x["k"] == "cast":
                        x = ir.strip(x["e"])
                    if x["k"] == "ref" and x.get("id") == v["id"]:
                        b = self.ev(y, env)
            if any(s0 for s0, k, g in b.alts):
                env[key] = V(frozenset((s0, "counter", g) for s0, k, g in b.alts))
            else:
                env[key] = V(frozenset([(frozenset([("sym", self.c.f["id"], v["id"])]), "counter", NONE)]))

    def body(self, s, env):
        self.c.brk.append([])
        self.c.cont.append([])
        path = env.path
        out = self.stmt(s["body"], env)
        for x in self.c.cont.pop():
            out = merge(out, x)
        for x in self.c.brk.pop():
            out = merge(out, x)
        return out

    def rounds(self, s, env):
        start = env.copy()
        cur = env
        for n in range(2):
            if s.get("c") and s["k"] != "do":
                self.ev(s["c"], cur)
            cur = self.body(s, cur)
            if cur is None:
                return start
            if s.get("inc"):
                self.ev(s["inc"], cur)
            cur.path, cur.same, cur.bindf = start.path, start.same, start.bindf
            if n == 0:
                cur = merge(cur, start.copy()) if False else cur
        return cur


def literals(prog):
    names = set()
    for f in prog.funcs:
        if not f.get("body"):
            continue
        for s in ir.stmts(f["body"]):
            for e in ir.stmt_exprs(s):
                if e is None:
                    continue
                for x in ir.walk(e):
                    if x["k"] in ("call",) and (x.get("callee") or "").split("::")[-1] in QUIET:
                        continue
                    if x["k"] == "str" and re.search(r"[A-Za-z][12]", str(x["v"])) and "%" not in str(x["v"]):
                        names.add(str(x["v"]))
    out = {}
    for n in names:
        m = list(re.finditer(r"(?<=[A-Za-z])1", n))
        if len(m) == 1:
            o = n[:m[0].start()] + "2" + n[m[0].end():]
            if o in names:
                out[n], out[o] = 1, 2
    return out


def touches(prog, fields):
    """Functions in which the two sides occur."""
    for f in prog.funcs:
        if not f.get("body"):
            continue
        short = f["name"].split("::")[-1]
        hit = short in OUTS or short in POS
        for s in ir.stmts(f["body"]):
            if hit:
                break
            for e in ir.stmt_exprs(s):
                if e is None:
                    continue
                for x in ir.walk(e):
                    if x["k"] == "mem" and x["n"] in fields and (x.get("b") or {}).get("k") != "this":
                        hit = True
                    elif x["k"] in ("call", "mcall") and (x.get("callee") or "").split("::")[-1] in OUTS:
                        hit = True
                    elif x["k"] == "mem" and (x["n"] in COLS or VMAP.search(x["n"])):
                        hit = True
                    elif x["k"] == "str" and x["v"] in LIT:
                        hit = True
                    elif x["k"] == "ilist" and (x.get("t") or "").split("::")[-1] in RECS:
                        hit = True
        if hit:
            yield f


LIT, RECS = {}, set()


def run(prog, R):
    R.rule = __doc__.replace("\n", " ")
    fields = formwalk.paired_fields(prog)
    LIT.clear()
    LIT.update(literals(prog))
    RECS.clear()
    RECS.update(n.split("::")[-1] for n, r in prog.records.items() if not r.get("bases") and
                any(f.get("n") in fields for f in r.get("fields", [])))
    if os.environ.get("SA_DBG"):
        print(sorted(fields), sorted(LIT), sorted(RECS))
    it = Interp(prog, fields, LIT, None)
    for f in sorted(touches(prog, fields), key=lambda f: f["id"]):
        if "Integ" in (f.get("cls") or ""):
            continue
        R.count("routines")
        try:
            it.root(f)
        except RecursionError as ex:
            R.note("undecided: %s: %s" % (f["name"], ex))
            R.count("undecided")
    for (rule, fid, line, key), (ok, f, l, msg) in sorted(it.obl.items(), key=lambda x: str(x[0])):
        R.count("obligations")
        if ok:
            R.sample("%s: %s" % (rule, msg))
        else:
            R.violation("%s:%s:%s" % (f["name"], rule, key[:80]), "%s:%d" % (f["file"], l), msg, f["name"])
        if os.environ.get("SA_DBG") == "2":
            print(rule, ok, f["name"], l, msg)
    R.assumptions += ["records of plain data with fields named alike but for 1/2 describe the two sides of one port or interface"]


if __name__ == "__main__":
    sys.exit(main("C18", run, {"obligations": 60}))
