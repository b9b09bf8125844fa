"""Path-sensitive walk over what pointers refer to: allocation, hand-over and deletion of heap objects.

No values are fixed; a pointer's value is the set of objects it may refer to, an object is named by where it was allocated or by
the place whose initial content refers to it. A decision that is not forced splits the walk (one run per outcome, a condition
decided once stays decided while nothing it reads is written); unknown loops run no or one generic round; functions of the
analysed sources that allocate, free or store pointers are entered, others and library functions follow their signature.
"""
import re
from . import ir

NULL = ("null",)
UNDEF = ("undef",)
NOADOPT = re.compile(r"\b(FiniteElementSpace|FiniteElementCollection|Mesh|SubMesh|ElementTransformation|FaceElementTransformations|"
                     r"IntegrationRule|IntegrationPoint|FiniteElement|Element|char|hid_t|hsize_t|FILE|void|std::ostream|"
                     r"std::basic_\w+<char>|TopologyData)\b")
MAKES = re.compile(r"^(mfem::SparseMatrix::ToDenseMatrix|mfem::(Transpose|RAP|TransposeMult|Mult_AtDA|OuterProduct)|"
                   r"mfem::BlockMatrix::CreateMonolithic|mfem::Mesh::GetFace|mfem::Mesh::GetEdgeVertexTable)$")
PLAIN = re.compile(r"^(mfem::Array|mfem::Array2D|std::vector|std::map|std::tuple|std::pair|std::array|std::unordered_map|std::list|"
                   r"std::set|std::deque)\b")
GROW = ("Append", "push_back", "emplace_back", "Prepend", "insert", "emplace", "push", "push_front")
CLEAR = ("DeleteAll", "clear", "resize", "LoseData", "erase", "DeleteLast", "DeleteFirst", "pop_back", "assign", "swap", "Copy", "MakeRef")


class Stop(Exception):
    """the path ends in an error"""


class Ret(Exception):
    def __init__(self, v):
        self.v = v


class Jump(Exception):
    def __init__(self, k):
        self.k = k


class Undecided(Exception):
    pass


def isptr(t):
    t = t.strip()
    while t.endswith("&"):
        t = t[:-1].strip()
    if t.endswith("const"):
        t = t[:-5].strip()
    return t.endswith("*")


def base(t):
    t = re.sub(r"\b(const|volatile|class|struct)\b", "", t).replace("&", "").strip()
    return t


def pointee(t):
    t = base(t)
    return t[:-1].strip() if t.endswith("*") else t


def cname(t):
    return base(t).split("<")[0].strip()


def scalar(t):
    b = base(t)
    return b in ("int", "bool", "double", "float", "char", "long", "unsigned int", "unsigned long", "long long", "unsigned char",
                 "size_t", "hid_t", "short", "unsigned long long", "herr_t", "hsize_t")


# library classes: {class: (number of constructor arguments from which on the integrators are another form's, flag that says so)}
LIBFLAGS = {"mfem::MixedBilinearForm": (3, "extern_bfs")}


def isnull(e):
    while e is not None and e["k"] in ("cast", "other"):
        e = e["e"] if e["k"] == "cast" else (e["a"][0] if len(e.get("a", [])) == 1 else None)
    return e is not None and (e["k"] == "null" or e["k"] == "int" and e.get("v") == 0)


def getters(prog):
    """Names of methods that hand out, and keep, what a member refers to."""
    ok, no, via = set(), set(), {}
    for f in prog.funcs:
        if f.get("kind") != "method" or not f.get("body"):
            continue
        n = f["name"].split("::")[-1]
        rets = [s.get("e") for s in ir.stmts(f["body"]) if s["k"] == "return"]
        if not any(r is not None and isptr(r.get("t", "")) for r in rets):
            continue
        kept = False
        for r in rets:
            x = ir.strip(r)
            while True:
                if x["k"] == "cast":
                    x = ir.strip(x["e"])
                elif x["k"] == "un" and x["op"] in ("&", "*"):
                    x = ir.strip(x["e"])
                elif x["k"] == "opcall" and x["op"] in ("[]", "()", "*", "->") and x["a"]:
                    x = ir.strip(x["a"][0])
                elif x["k"] == "sub":
                    x = ir.strip(x["x"])
                else:
                    break
            if isnull(r) or isnull(x):
                continue
            if x["k"] == "mem" and x.get("dk") == "field" and (x.get("b") is None or ir.strip(x["b"])["k"] == "this"):
                kept = True
            elif x["k"] == "mcall" and (x["obj"] is None or ir.strip(x["obj"])["k"] == "this"):
                via.setdefault(n, set()).add((x.get("callee") or "").split("::")[-1])
            else:
                no.add(n)
        for e in ir.body_exprs(f):
            if e["k"] in ("delete", "new", "assign") or e["k"] == "opcall" and e["op"] == "=":
                no.add(n)
        if kept:
            ok.add(n)
    while True:
        new = {n for n, c in via.items() if n not in no and not c <= ok - no}
        if not new:
            return ok - no
        no |= new


class Info:
    """What is computed once per program."""
    def __init__(self, prog):
        self.P = prog
        self.dtor = {f["cls"]: f for f in prog.funcs if f.get("kind") == "dtor" and f.get("body")}
        self.rel = {}
        direct, calls = set(), {}
        self.frees = set()
        for f in prog.funcs:
            k = id(f)
            cs = calls[k] = set()
            es = list(ir.body_exprs(f)) if f.get("body") else []
            for i in f.get("inits") or []:
                if i.get("e") is not None:
                    es += list(ir.walk(i["e"]))
                    if i.get("field") and isptr(i["e"].get("t", "")) and not isnull(i["e"]):
                        direct.add(k)
            for e in es:
                if e["k"] in ("new", "delete"):
                    direct.add(k)
                    if e["k"] == "delete":
                        self.frees.add(k)
                elif e["k"] == "assign" and isptr(e["x"].get("t", "")) and ir.strip(e["x"])["k"] != "ref":
                    direct.add(k)
                elif e["k"] in ("call", "mcall", "ctor", "opcall"):
                    g = prog.callee(e)
                    if g is not None:
                        cs.add(id(g))
                    elif (e.get("callee") or "").split("::")[-1] in GROW:
                        direct.add(k)
                    elif MAKES.match(e.get("callee") or ""):
                        direct.add(k)
        rel = set(direct)
        ch = True
        while ch:
            ch = False
            for k, cs in calls.items():
                if k not in rel and cs & rel:
                    rel.add(k)
                    ch = True
        self.relevant = rel
        self.getters = getters(prog)
        self.stm = {}
        self.keep = [prog]

    def touches(self, s):
        """Does a statement allocate, free, move pointers or leave the flow?"""
        k = id(s)
        r = self.stm.get(k)
        if r is None:
            r = False
            loops = 0
            for x in ir.stmts(s):
                if x["k"] in ("return", "goto", "otherstmt", "try", "label"):
                    r = True
                elif x["k"] in ("break", "continue"):
                    r = True
                elif x["k"] == "decl":
                    pass
                for e in ir.stmt_exprs(x):
                    if e is None or r:
                        continue
                    for y in ir.walk(e):
                        if y["k"] in ("new", "delete", "throw"):
                            r = True
                        elif y["k"] == "assign" and isptr(y["x"].get("t", "")):
                            r = True
                        elif y["k"] in ("call", "mcall", "ctor", "opcall"):
                            g = self.P.callee(y)
                            n = (y.get("callee") or "").split("::")[-1]
                            if y.get("noreturn") or n in ("mfem_error", "abort", "exit"):
                                r = True
                            elif g is not None and (id(g) in self.relevant):
                                r = True
                            elif g is None and (n in GROW or n in CLEAR or n in ("SetSize",) and len(y.get("a", [])) > 1) and \
                                    "*" in (ir.strip(y["obj"]).get("t", "") if y["k"] == "mcall" and y["obj"] is not None else ""):
                                r = True
                            elif g is None and any(isptr(t) and not NOADOPT.search(t) and not scalar(pointee(t))
                                                   for t in y.get("pt", [])):
                                r = True
                            elif g is None and MAKES.match(y.get("callee") or ""):
                                r = True
                if r:
                    break
            self.stm[k] = r
        return r


class Frame:
    def __init__(self, f, this, uid):
        self.f, self.this, self.uid = f, this, uid
        self.alias = {}
        self.locals = []


class Heap:
    MAXSTEPS = 30000
    DEPTH = 5

    def __init__(self, info, script=()):
        self.info, self.P = info, info.P
        self.script, self.used, self.forced = list(script), [], set()
        self.store, self.kids = {}, {}
        self.status, self.meta = {}, {}
        self.swept, self.pending, self.since = {}, [], []
        self.sweptall, self.partials, self.singles = set(), set(), set()
        self.loopterms, self.level = {}, {}
        self.types = {}
        self.frames = []
        self.n = self.steps = 0
        self.line = 0
        self.borrowed = {}
        self.found = []          # (kind, func, line, object, text)
        self.globals = set()

    # ------------------------------------------------------------ names
    def fresh(self, what, name=""):
        self.n += 1
        return (what, self.n, name)

    def term(self, name=""):
        return ("t", self.fresh("any", name))

    @staticmethod
    def root(a):
        while a[0] in ("f", "el"):
            a = a[1]
        return a

    def at(self):
        f = self.frames[-1].f
        return f, self.line

    def report(self, kind, obj, text):
        f, l = self.at()
        self.found.append((kind, f, l, obj, text))

    # ------------------------------------------------------------ store
    def link(self, a):
        x = a
        while x[0] in ("f", "el"):
            self.kids.setdefault(x[1], set()).add(x)
            x = x[1]

    def drop(self, a):
        for k in list(self.kids.get(a, ())):
            self.store.pop(k, None)
            self.drop(k)
        self.kids.pop(a, None)
        self.unsweep(a)

    def unsweep(self, a):
        self.swept.pop(a, None)
        self.sweptall.discard(a)

    def below(self, a):
        yield a
        for k in self.kids.get(a, ()):
            yield from self.below(k)

    def read(self, a, t=""):
        if a in self.store:
            return self.store[a]
        if a[0] == "el":
            vs = [self.store[k] for k in self.kids.get(a[1], ()) if k in self.store and k[0] == "el" and not self.apart(k[2], a[2])]
            if vs:
                return self.join(vs + ([self.default(a, t)] if self.root(a)[0] != "v" else []))
        return self.default(a, t)

    def apart(self, i, j):
        return i[0] == "c" and j[0] == "c" and i != j

    def default(self, a, t):
        if a[0] in ("el", "f"):
            v = self.store.get(a[1])
            if v and v[0] == "t" and isinstance(v[1], tuple) and v[1][:1] == ("copy",) and v[1][1] != a[1]:
                return self.read((a[0], v[1][1], a[2]), t)
        if isptr(t):
            r = self.root(a)
            if r[0] in ("v", "new", "tmp") and a[0] == "el":
                return ("p", frozenset([self.fresh("unk")]))
            return ("p", frozenset([("init", a)]))
        return ("t", ("rd", a))

    def join(self, vs):
        if all(v == vs[0] for v in vs):
            return vs[0]
        if any(v[0] == "p" for v in vs):
            s = frozenset().union(*[v[1] for v in vs if v[0] == "p"])
            return ("p", s)
        return self.term()

    def write(self, ads, v):
        ads = list(ads)
        for a in ads:
            if a[0] == "el":
                self.unsweep(a[1])
            if len(ads) == 1:
                self.drop(a)
                self.store[a] = v
            else:
                self.store[a] = self.join([v, self.store[a]]) if a in self.store else v
            self.link(a)
            if a[0] == "g":
                self.globals.add(a)
        self.forget(ads)

    def forget(self, ads):
        """Conditions about changed places no longer say anything."""
        s = set(ads)
        def uses(t):
            return isinstance(t, tuple) and (t in s or any(uses(x) for x in t if isinstance(x, tuple)))
        for i, (k, v) in enumerate(self.used):
            if k is not None and uses(k):
                self.used[i] = (("old", i), v)

    def copy(self, dst, src):
        """Value copy of an object: what its pointers refer to is shared."""
        self.drop(dst)
        for k in list(self.below(src)):
            if k != src and k in self.store:
                a = self.rebase(k, src, dst)
                self.store[a] = self.store[k]
                self.link(a)
        if not self.kids.get(src) and src not in self.store:
            self.store[dst] = ("t", ("copy", src))
        elif src in self.store:
            self.store[dst] = self.store[src]
        self.link(dst)

    def rebase(self, k, src, dst):
        if k == src:
            return dst
        return (k[0], self.rebase(k[1], src, dst)) + k[2:]

    # ------------------------------------------------------------ decisions
    def decide(self, t, force=None):
        if t[0] == "c":
            return bool(t[1])
        for k, v in self.used:
            if k == t:
                return v
        n = len(self.used)
        if force is not None:
            v = force
            self.forced.add(n)
        elif n < len(self.script):
            v = self.script[n]
        else:
            v = True
        self.used.append((t, v))
        return v

    def cond(self, e, force=None):
        """The truth of a condition."""
        e = ir.strip(e)
        k = e["k"]
        if e.get("l"):
            self.line = e["l"]
        if k == "un" and e["op"] == "!":
            return not self.cond(e["e"], None if force is None else not force)
        if k == "bin" and e["op"] == "&&":
            if force:
                return self.cond(e["x"], True) and self.cond(e["y"], True)
            return self.cond(e["x"]) and self.cond(e["y"])
        if k == "bin" and e["op"] == "||":
            if force is False:
                return self.cond(e["x"], False) or self.cond(e["y"], False)
            return self.cond(e["x"]) or self.cond(e["y"], force)
        if k == "cast" or k == "other" and len(e.get("a", [])) == 1:
            return self.cond(e["e"] if k == "cast" else e["a"][0], force)
        if k == "bin" and e["op"] in ("==", "!="):
            x, y = self.ev(e["x"]), self.ev(e["y"])
            neg = e["op"] == "!="
            for a, b, ex in ((x, y, e["x"]), (y, x, e["y"])):
                if b == ("p", frozenset([NULL])) or b == ("c", 0) and a[0] == "p":
                    r = self.notnull(a, ex, None if force is None else force == neg)
                    return r if neg else not r
            if x[0] == "c" and y[0] == "c":
                return (x[1] == y[1]) != neg
            if x == y and (x[0] == "t" or x[0] == "p" and len(x[1]) == 1):
                return not neg
            if x[0] == "p" and y[0] == "p" and not x[1] & y[1] and all(a[0] in ("new", "null") for a in x[1] | y[1]):
                return neg
            if x[0] == "p" and y[0] == "p":
                x, y = ("p", tuple(sorted(x[1], key=repr))), ("p", tuple(sorted(y[1], key=repr)))
            x, y = sorted((x, y), key=repr)
            r = self.decide(("eq", x, y), None if force is None else force != neg)
            return r != neg
        v = self.ev(e)
        if v[0] == "p":
            return self.notnull(v, e, force)
        if v[0] == "c":
            return bool(v[1])
        if v[0] == "undef":
            return self.decide(("undef", self.n), force)
        return self.decide(v, force)

    def notnull(self, v, e, force=None):
        if v[0] != "p":
            return self.decide(("nn", v), force)
        s = v[1]
        if s == frozenset([NULL]):
            return False
        if NULL not in s and all(a[0] in ("new", "v", "f", "el", "g", "this") for a in s):
            return True
        if any(a[0] == "new" and self.status.get(a) == "live" for a in s) and \
                any(a[0] == "init" and a[1][0] == "el" for a in s):
            return True         # the round in which the element is the object
        r = self.decide(("nn", tuple(sorted(s, key=repr))), force)
        # the place read is now known to be, or not to be, null
        x = ir.strip(e)
        ads = self.lv_quiet(x)
        if ads is not None and len(ads) == 1:
            a = next(iter(ads))
            if not r:
                self.store[a] = ("p", frozenset([NULL]))
                self.link(a)
            elif NULL in s:
                self.store[a] = ("p", s - {NULL})
        return r

    def lv_quiet(self, e):
        if e["k"] == "ref" and e.get("dk") in ("local", "param", "slocal"):
            return self.lv(e)
        if e["k"] == "mem" and e.get("dk") == "field":
            return self.lv(e)
        return None

    # ------------------------------------------------------------ objects
    def alloc(self, typ, array, what=None):
        o = self.fresh("new", typ)
        f, l = self.at()
        self.status[o] = "live"
        self.meta[o] = (f, l, typ, array, what)
        self.types[o] = cname(typ)
        return o

    def gone(self, a, seen=None):
        """Handed to something that may own or free it, with everything it leads to."""
        seen = seen if seen is not None else set()
        if a in seen or a[0] in ("null", "undef"):
            return
        seen.add(a)
        r = self.root(a)
        if a in self.status and self.status[a] == "live":
            self.status[a] = "gone"
        for k in list(self.below(a)):
            v = self.store.get(k)
            if v and v[0] == "p":
                for b in v[1]:
                    self.gone(b, seen)

    def escape(self, v):
        if v and v[0] == "p":
            for a in v[1]:
                self.gone(a)
        elif v and v[0] == "obj":
            self.gone(v[1])

    def use(self, v, what):
        """A pointer is followed."""
        if v[0] != "p":
            return
        s = v[1] - {NULL}
        if len(s) == 1:
            a = next(iter(s))
            if self.status.get(a) == "freed":
                self.report("use", a, "%s is used after it was freed" % what)
            elif a[0] == "init" and a[1][0] == "el" and a[1][1] in self.sweptall:
                self.report("use", a, "%s is used after it was freed" % what)

    def free(self, v, e, array=False):
        what = ir.show(e) if isinstance(e, dict) else str(e)
        if v[0] == "undef":
            self.report("uninit", None, "%s is freed without ever having been set" % what)
            return
        if v[0] != "p":
            return
        s = v[1] - {NULL}
        if s and isinstance(e, dict) and e["k"] in ("opcall", "sub", "mcall"):
            try:
                ads = self.lv(e)
            except Undecided:
                ads = ()
            if len(ads) == 1:
                a = next(iter(ads))
                if a[0] == "el" and a[1] in self.sweptall:
                    o = next((o for o in s if o in self.meta), a)
                    self.report("double", o, "%s is freed twice" % what)
                    return
        if len(s) == 1:
            a = next(iter(s))
            if a in self.borrowed:
                self.report("borrowed", a, "%s comes from %s, which keeps it, and is freed" % (what, self.borrowed[a]))
                return
            if a == UNDEF:
                self.report("uninit", None, "%s is freed without ever having been set" % what)
                return
            if self.status.get(a) == "freed" or a[0] == "init" and a[1][0] == "el" and a[1][1] in self.sweptall:
                self.report("double", a, "%s is freed twice" % what)
                return
            if a[0] in ("v", "this") or a[0] in ("f",) and self.root(a)[0] in ("v", "this"):
                self.report("stack", a, "%s is freed though it was not allocated by new" % what)
                return
            if a[0] == "new" and bool(self.meta[a][3]) != bool(array) and not self.meta[a][4]:
                self.report("form", a, "%s is freed with %s though it was allocated with %s" % (
                    what, "delete[]" if array else "delete", "new[]" if self.meta[a][3] else "new"))
            t = self.types.get(a)
            if a[0] == "new" and t and not array:
                self.destroy(a, t)
            elif a[0] == "init":
                t = cname(pointee(e.get("t", ""))) if isinstance(e, dict) else None
                r = self.P.records.get(t) if t else None
                if r and not any(f.get("virtual") for f in [self.info.dtor.get(t)] if f):
                    self.destroy(a, t)
            self.status[a] = "freed"
            if a[0] == "init" and a[1][0] == "el":
                # some element: what its like hold may have gone with it
                for k in list(self.store):
                    if self.within(k, a[1][1]) and self.store[k][0] == "p":
                        self.escape(self.store[k])
        elif any(a[0] == "init" and a[1][0] == "el" for a in s) and self.pending and \
                all(a[0] == "init" or a[0] == "new" or a[0] == "unk" for a in s):
            # one round stands for the one that frees each of them
            for a in sorted(s, key=repr):
                if self.status.get(a) != "live" or a[0] != "new":
                    self.gone(a)
                    continue
                t = self.types.get(a)
                if t and not array:
                    self.destroy(a, t)
                self.status[a] = "swept"
        else:
            for a in s:
                self.gone(a)

    @staticmethod
    def within(k, c):
        """Is the place inside what an element of container c refers to?"""
        while isinstance(k, tuple) and len(k) > 1 and isinstance(k[1], tuple):
            if k[0] == "init" and k[1][0] == "el" and k[1][1] == c:
                return True
            k = k[1]
        return False

    def bases(self, cls):
        r = self.P.records.get(cls)
        return [b if isinstance(b, str) else b.get("t", b.get("n")) for b in (r or {}).get("bases", [])]

    def destroy(self, a, cls, depth=0):
        """The destructor chain of a class on an object."""
        if depth > 6 or len(self.frames) > self.DEPTH + 2:
            return
        r = self.P.records.get(cls)
        if r is None:
            return
        d = self.info.dtor.get(cls)
        if d is not None:
            try:
                self.run(d, a, [])
            except Ret:
                pass
        for f in r.get("fields", []):
            t = f["t"]
            if not isptr(t) and cname(t) in self.P.records and not t.strip().endswith("&"):
                self.destroy(("f", a, f["n"]), cname(t), depth + 1)
        for b in self.bases(cls):
            self.destroy(a, cname(b), depth + 1)

    # ------------------------------------------------------------ places
    def lv(self, e):
        """The set of places an expression denotes."""
        k = e["k"]
        if e.get("l"):
            self.line = e["l"]
        if k == "cast":
            return self.lv(e["e"])
        if k == "other" and len(e.get("a", [])) == 1 and e["a"][0] is not None:
            return self.lv(e["a"][0])
        if k == "ref":
            if e.get("dk") in ("local", "param", "slocal"):
                for fr in reversed(self.frames):
                    if e["id"] in fr.alias:
                        return fr.alias[e["id"]]
                    if fr is self.frames[-1] or True:
                        break
                return frozenset([("v", self.frames[-1].uid, e["id"], e["n"])])
            return frozenset([("g", e.get("q") or e["n"])])
        if k == "this":
            return frozenset([self.frames[-1].this])
        if k == "mem":
            b = e.get("b")
            if e.get("dk") == "smember":
                return frozenset([("g", e.get("q") or e["n"])])
            if b is None or b["k"] == "this":
                return frozenset([("f", self.frames[-1].this, e["n"])])
            if e.get("arrow"):
                return frozenset(("f", a, e["n"]) for a in self.follow(b))
            return frozenset(("f", a, e["n"]) for a in self.lv(b))
        if k == "un" and e["op"] == "*":
            return self.follow(e["e"])
        if k == "opcall" and e["op"] in ("*", "->") and len(e["a"]) == 1:
            v = self.ev(e["a"][0])
            if v[0] == "p":
                return frozenset(a for a in v[1] if a[0] not in ("null", "undef")) or frozenset([self.fresh("unk")])
            return frozenset([("el", a, ("c", "*")) for a in self.lv(e["a"][0])])
        if k == "sub":
            i = self.index(self.ev(e["y"]))
            if isptr(e["x"].get("t", "")):
                return frozenset(self.elem(a, i) for a in self.follow(e["x"]))
            return frozenset(self.elem(a, i) for a in self.lv(e["x"]))
        if k == "opcall" and e["op"] in ("[]", "()") and len(e["a"]) >= 2 and self.container(e["a"][0]):
            ix = [self.index(self.ev(x)) for x in e["a"][1:]]
            i = ix[0] if len(ix) == 1 else self.pair(ix)
            return frozenset(self.elem(a, i) for a in self.lv(e["a"][0]))
        if k == "mcall" and (e.get("callee") or "").split("::")[-1] in ("at", "Last", "back", "front", "operator()", "operator[]") \
                and self.container(e["obj"], e.get("arrow")):
            obs = self.follow(e["obj"]) if e.get("arrow") else self.lv(e["obj"])
            ix = [self.index(self.ev(x)) for x in e["a"]]
            i = ix[0] if len(ix) == 1 else self.pair(ix) if ix else ("t", ("last",))
            return frozenset(self.elem(a, i) for a in obs)
        if k == "cond":
            if ir.as_assert(e) is None:
                return self.lv(e["x"] if self.cond(e["c"]) else e["y"])
        if k == "assign":
            self.ev(e)
            return self.lv(e["x"])
        if k == "opcall" and e["op"] in ("=", "+=", "-=", "*="):
            self.ev(e)
            return self.lv(e["a"][0])
        v = self.ev(e)
        if v[0] == "obj":
            return frozenset([v[1]])
        if v[0] == "p" and not isptr(e.get("t", "")):
            return frozenset(v[1])
        a = self.fresh("tmp")
        self.store[a] = v
        return frozenset([a])

    def container(self, e, arrow=False):
        t = e.get("t", "")
        return bool(PLAIN.match(cname(pointee(t) if arrow else t)))

    @staticmethod
    def index(v):
        if v[0] == "c":
            return v
        return v

    @staticmethod
    def pair(ix):
        if all(i[0] == "c" for i in ix):
            return ("c", tuple(i[1] for i in ix))
        return ("t", tuple(ix))

    @staticmethod
    def elem(a, i):
        return ("el", a, i)

    def follow(self, e):
        """The objects a pointer expression refers to."""
        v = self.ev(e)
        self.use(v, ir.show(ir.strip(e)))
        if v[0] == "p":
            s = frozenset(a for a in v[1] if a[0] not in ("null", "undef"))
            if s:
                return s
        if v[0] == "obj":
            return frozenset([v[1]])
        if v[0] == "t":
            return frozenset([("init", v[1])])
        return frozenset([self.fresh("unk")])

    # ------------------------------------------------------------ expressions
    def ev(self, e):
        if e is None:
            return ("c", 0)
        self.steps += 1
        if self.steps > self.MAXSTEPS:
            raise Undecided("too long")
        if e.get("l"):
            self.line = e["l"]
        k = e["k"]
        t = e.get("t", "")
        if "cv" in e and k not in ("assign", "call", "mcall"):
            return ("c", int(e["cv"]))
        if k in ("int", "bool", "char"):
            return ("c", int(e["v"]))
        if k == "str":
            return ("c", str(e["v"]))
        if k == "zero":
            return ("p", frozenset([NULL])) if isptr(t) else ("c", 0)
        if k == "null":
            return ("p", frozenset([NULL]))
        if k == "this":
            return ("p", frozenset([self.frames[-1].this]))
        if k == "float":
            return ("t", ("flt", e["v"]))
        if k in ("sizeof", "lambda"):
            return self.lam(e) if k == "lambda" else self.term()
        if k == "cast":
            v = self.ev(e["e"])
            if isptr(t) and v == ("c", 0):
                return ("p", frozenset([NULL]))
            if e.get("ck") == "Dynamic" and v[0] == "p" and "&" not in t:
                return v
            return v
        if k in ("ref", "mem", "sub") or k == "un" and e["op"] == "*":
            if k == "ref" and e.get("dk") in ("func", "enum", "other"):
                return ("t", ("fn", e.get("q") or e["n"]))
            if k == "mem" and e.get("dk") == "method":
                return ("t", ("fn", e["n"]))
            return self.load(self.lv(e), t)
        if k == "un":
            if e["op"] == "&":
                x = ir.strip(e["e"])
                if x["k"] == "ref" and x.get("dk") == "func":
                    return ("t", ("fn", x["n"]))
                return ("p", frozenset(self.lv(e["e"])))
            if e["op"] in ("++", "--"):
                ads = self.lv(e["e"])
                v = self.load(ads, t)
                nv = ("c", v[1] + (1 if e["op"] == "++" else -1)) if v[0] == "c" and isinstance(v[1], int) else \
                    v if v[0] == "p" else self.term()
                self.write(ads, nv)
                return v if e.get("post") else nv
            if e["op"] == "!":
                v = self.ev(e["e"])
                if v[0] == "c":
                    return ("c", int(not v[1]))
                return ("t", ("!", v))
            v = self.ev(e["e"])
            if e["op"] == "-" and v[0] == "c" and isinstance(v[1], int):
                return ("c", -v[1])
            return ("t", (e["op"], v))
        if k == "bin":
            return self.binary(e)
        if k == "assign":
            return self.assign(e)
        if k == "cond":
            a = ir.as_assert(e)
            if a is not None:
                if not self.cond(a, True):
                    raise Stop()
                return ("c", 0)
            return self.ev(e["x"] if self.cond(e["c"]) else e["y"])
        if k == "new":
            return self.new(e)
        if k == "delete":
            v = self.ev(e["e"])
            x = ir.strip(e["e"])
            if self.sweep(x) and v[0] == "p" and len(v[1] - {NULL}) > 1:
                return ("c", 0)      # a loop that leaves some out
            self.free(v, x, e.get("array"))
            return ("c", 0)
        if k == "call":
            return self.call(e, None)
        if k == "mcall":
            return self.mcall(e)
        if k == "opcall":
            return self.opcall(e)
        if k in ("ctor", "uctor"):
            a = self.fresh("tmp", e.get("cls", ""))
            return self.construct(a, e)
        if k == "ilist":
            a = self.fresh("tmp", "list")
            for i, x in enumerate(e["a"]):
                if x is not None:
                    v = self.ev(x)
                    self.write([("el", a, ("c", i))], v)
            return ("obj", a)
        if k == "throw":
            raise Stop()
        if k == "other":
            r = None
            for x in e.get("a", []):
                if x is not None:
                    r = self.ev(x)
            return r if r is not None and len(e["a"]) == 1 else self.term()
        for x in ir.kids(e):
            self.ev(x)
        return self.term()

    def lam(self, e):
        for c in e.get("cap", []):
            pass
        return self.term()

    def load(self, ads, t):
        if not isptr(t) and not scalar(t):
            ads = list(ads)
            if len(ads) == 1:
                a = ads[0]
                v = self.store.get(a)
                if v is not None and v[0] in ("c", "p", "undef"):
                    return v
                return ("obj", a)
            return ("obj", ads[0]) if ads else self.term()
        vs = [self.read(a, t) for a in ads]
        return self.join(vs) if vs else self.term()

    def binary(self, e):
        op = e["op"]
        if op == ",":
            self.ev(e["x"])
            return self.ev(e["y"])
        if op in ("&&", "||"):
            return ("c", int(self.cond(e)))
        x, y = self.ev(e["x"]), self.ev(e["y"])
        if x[0] == "p" and op in ("+", "-") and y[0] != "p":
            return x
        if y[0] == "p" and op == "+":
            return y
        if x[0] == "c" and y[0] == "c" and isinstance(x[1], int) and isinstance(y[1], int):
            try:
                return ("c", {"+": lambda a, b: a + b, "-": lambda a, b: a - b, "*": lambda a, b: a * b,
                              "<": lambda a, b: int(a < b), ">": lambda a, b: int(a > b), "<=": lambda a, b: int(a <= b),
                              ">=": lambda a, b: int(a >= b), "==": lambda a, b: int(a == b), "!=": lambda a, b: int(a != b),
                              "%": lambda a, b: a % b, "/": lambda a, b: int(a / b)}[op](x[1], y[1]))
            except (KeyError, ZeroDivisionError):
                pass
        if op in ("==", "!=") and (x == ("p", frozenset([NULL])) or y == ("p", frozenset([NULL]))):
            return ("c", int(self.cond(e)))
        if op == "!=":
            return ("t", ("!", ("t", ("eq",) + tuple(sorted((x, y), key=repr)))))
        if op == "==":
            return ("t", ("eq",) + tuple(sorted((x, y), key=repr)))
        return ("t", (op, x, y))

    def assign(self, e):
        v = self.ev(e["y"])
        ads = self.lv(e["x"])
        if e["op"] != "=":
            o = self.load(ads, e["x"].get("t", ""))
            if o[0] != "p":
                v = self.term()
            else:
                v = o
        if isptr(e["x"].get("t", "")) and v == ("c", 0):
            v = ("p", frozenset([NULL]))
        if v[0] == "obj":
            for a in ads:
                if a != v[1]:
                    self.copy(a, v[1])
            return v
        self.outside(ads, v)
        self.write(ads, v)
        return v

    def outside(self, ads, v):
        """Stored where others can reach it: nothing to do, what is reachable at the end counts."""

    def sweep(self, x):
        """delete c[i] for the counter i of the loop: all of c, once the loop ends."""
        if x["k"] in ("opcall", "sub", "mcall"):
            try:
                ads = self.lv(x)
            except Undecided:
                return
            for a in ads:
                if a[0] != "el":
                    continue
                if not self.counter(a[2]):
                    self.singles.add(a[1])
                    if a[1] in self.partials:
                        self.swept[a[1]] = self.line
                elif not self.pending:
                    pass
                elif self.short(a[2]) and a[1] not in self.singles:
                    self.partials.add(a[1])
                    return True
                else:
                    self.pending[-1].add((a[1], self.line, self.always(a[2])))

    def always(self, i):
        """Is every round of the loops that run through this index the same so far?"""
        def level(x):
            if isinstance(x, tuple) and x and x[0] == "any":
                return self.level.get(x, 0)
            return min(level(y[1]) for y in x)
        return all(t[0] in ("nn", "some", "loop") for t, v in self.used[self.since[level(i[1])]:])

    def short(self, i):
        """Does a loop leave out some values of this index?"""
        x = i[1]
        if isinstance(x, tuple) and x and x[0] == "any":
            return self.loopterms.get(x) == 2
        return any(self.short(y) for y in x)

    def partial(self, s):
        """for (i = first; i < last; i++) that starts after 0 or ends before the size."""
        if s["k"] != "for" or s["c"] is None:
            return None
        c = ir.strip(s["c"])
        if c["k"] != "bin" or c["op"] not in ("<", "!="):
            return None
        x, y = ir.strip(c["x"]), ir.strip(c["y"])
        if x["k"] != "ref" or x.get("dk") != "local":
            return None
        v = self.store.get(("v", self.frames[-1].uid, x["id"], x["n"]))
        if v and v[0] == "c" and isinstance(v[1], int) and v[1] > 0:
            return x["id"]
        if y["k"] == "bin" and y["op"] == "-" and "cv" in ir.strip(y["y"]) and int(ir.strip(y["y"])["cv"]) > 0 or \
                y["k"] == "bin" and y["op"] == "-" and ir.strip(y["y"])["k"] == "int" and int(ir.strip(y["y"])["v"]) > 0:
            return x["id"]
        return None

    def counter(self, i):
        if i[0] != "t":
            return False
        x = i[1]
        if isinstance(x, tuple) and x and x[0] == "any":
            return x in self.loopterms
        if isinstance(x, tuple) and x and isinstance(x[0], tuple):
            return all(self.counter(y) for y in x)
        return False

    def new(self, e):
        n = None
        if e.get("size") is not None:
            self.ev(e["size"])
            n = True
        i = e.get("init")
        x = i
        while x is not None and x["k"] in ("cast", "other") and (x.get("e") or x.get("a")):
            x = x["e"] if x["k"] == "cast" else x["a"][0]
        line = self.line
        if x is not None and x["k"] == "ctor":
            o = self.alloc(e.get("at", ""), n)
            self.construct(o, x)
        else:
            v = self.ev(i) if i is not None else None
            self.line = line
            o = self.alloc(e.get("at", ""), n)
            if v is not None and v[0] in ("p", "c"):
                self.write([o], v)
        return ("p", frozenset([o]))

    def construct(self, a, e):
        cls = e.get("cls", "")
        if (e.get("copy") or e.get("move")) and e["a"]:
            v = self.ev(e["a"][0])
            if v[0] == "obj":
                f = self.P.callee(e)
                if a[0] == "tmp" and not (f is not None and f.get("body")):
                    return v if v[1][0] == "tmp" else self.copied(a, v)
                self.copy(a, v[1])
            elif v[0] in ("c", "p"):
                self.store[a] = v
            return ("obj", a)
        f = self.P.callee(e)
        if f is not None and (f.get("body") or f.get("inits")) and len(self.frames) <= self.DEPTH and id(f) in self.info.relevant \
                and not any(fr.f is f for fr in self.frames):
            self.run(f, a, self.bind(f, e["a"]))
            return ("obj", a)
        vs = self.args(e)
        if PLAIN.match(cname(cls)) and vs and vs[-1][0] == "p":
            for k in vs:
                self.escape(k)
        else:
            self.passed(e, vs, ctor=f is None or id(f) in self.info.relevant)
        if cname(cls) in LIBFLAGS:
            n, fl = LIBFLAGS[cname(cls)]
            self.write([("f", a, fl)], ("c", int(len(e["a"]) >= n)))
        return ("obj", a)

    def copied(self, a, v):
        self.copy(a, v[1])
        return ("obj", a)

    # ------------------------------------------------------------ calls
    def args(self, e, skip=0):
        out = []
        pts = e.get("pt") or []
        for n, x in enumerate(e["a"][skip:]):
            if x is None:
                out.append(("c", 0))
                continue
            t = pts[n] if n < len(pts) else ""
            if t.strip().endswith("&") and not t.strip().endswith("&&"):
                ads = self.lv(x)
                out.append(("ads", ads))
            else:
                out.append(self.ev(x))
        return out

    def passed(self, e, vs, ctor=True, adopt=True):
        """Values given to a function that is not entered."""
        pts = e.get("pt") or []
        for n, v in enumerate(vs):
            t = (pts[n] if n < len(pts) else "").strip()
            if v[0] == "ads":
                const = t.startswith("const ") and not isptr(t) or re.search(r"\bconst ?&$", t)
                for a in v[1]:
                    if isptr(t):
                        if not const and not t.endswith("const &"):
                            self.escape(self.store.get(a, ("c", 0)))
                            self.write([a], ("p", frozenset([self.fresh("unk")])))
                    elif const:
                        if "*" in t and adopt:
                            self.gone_below(a)
                    else:
                        self.gone_below(a)
                        self.drop(a)
                        if scalar(t):
                            self.write([a], self.term())
                        else:
                            self.forget([a])
                            if a in self.store:
                                self.store.pop(a)
            elif v[0] == "p":
                if isptr(t) and not scalar(pointee(t)) and NOADOPT.search(t) and not t.rstrip("& ").endswith("**"):
                    self.use(v, "an argument")
                    continue
                self.use(v, "an argument")
                if not adopt and not isptr(pointee(t)):
                    continue
                self.escape(v)
                if not (t.startswith("const ") or not adopt):
                    for a in v[1]:
                        if a[0] not in ("null", "undef"):
                            self.drop(a)
                            if a in self.store and a[0] in ("v", "f", "el"):
                                self.store[a] = ("p", frozenset([self.fresh("unk")])) if self.store[a][0] == "p" else self.term()
            elif v[0] == "obj":
                self.gone_below(v[1])

    def gone_below(self, a):
        for k in list(self.below(a)):
            v = self.store.get(k)
            if v and v[0] == "p":
                self.escape(v)

    def bind(self, f, es):
        out = []
        for i, p in enumerate(f["params"]):
            x = es[i] if i < len(es) and es[i] is not None else p.get("def")
            t = p["t"].strip()
            if x is None:
                out.append((p, "val", self.term()))
            elif t.endswith("&"):
                out.append((p, "ref", self.lv(x)))
            else:
                out.append((p, "val", self.ev(x)))
        return out

    def run(self, f, this, bound):
        self.n += 1
        fr = Frame(f, this, self.n)
        for p, how, v in bound:
            if how == "ref":
                fr.alias[p["id"]] = v
            else:
                a = ("v", fr.uid, p["id"], p["n"])
                if v[0] == "obj":
                    self.copy(a, v[1])
                    if len(self.frames) > 1:
                        fr.locals.append((a, p["t"]))
                else:
                    self.store[a] = v
        self.frames.append(fr)
        line = self.line
        try:
            try:
                self.inits(f, this)
                if f.get("body"):
                    self.stmt(f["body"])
                v = None
            except Ret as r:
                v = r.v
            for a, t in reversed(fr.locals):
                if not isptr(t) and not scalar(t) and cname(t) in self.P.records and not (v and v[0] == "obj" and v[1] == a):
                    self.destroy(a, cname(t))
            return v
        finally:
            self.frames.pop()
            self.line = line

    def inits(self, f, this):
        if f.get("kind") != "ctor":
            return
        done = set()
        deleg = any(i.get("delegating") for i in f.get("inits") or [])
        for i in f.get("inits") or []:
            e = i.get("e")
            if i.get("l"):
                self.line = i["l"]
            if i.get("field"):
                done.add(i["field"])
                a = ("f", this, i["field"])
                if e is None:
                    continue
                x = e
                while x["k"] in ("cast", "other") and (x.get("e") or x.get("a")):
                    x = x["e"] if x["k"] == "cast" else x["a"][0]
                if x["k"] == "ctor" and not isptr(e.get("t", "")):
                    self.construct(a, x)
                    continue
                v = self.ev(e)
                if isptr(e.get("t", "")) and v == ("c", 0):
                    v = ("p", frozenset([NULL]))
                if v[0] == "obj":
                    self.copy(a, v[1])
                else:
                    self.write([a], v)
            elif e is not None:
                x = e
                while x["k"] in ("cast", "other") and (x.get("e") or x.get("a")):
                    x = x["e"] if x["k"] == "cast" else x["a"][0]
                if x["k"] == "ctor":
                    self.construct(this, x)
                else:
                    self.ev(e)
        r = self.P.records.get(f.get("cls"))
        if r and not deleg:
            for fl in r.get("fields", []):
                if fl["n"] in done:
                    continue
                a = ("f", this, fl["n"])
                if fl.get("init") is not None and isinstance(fl["init"], dict):
                    self.write([a], self.ev(fl["init"]))
                elif isptr(fl["t"]) and not fl.get("init"):
                    self.write([a], UNDEF)

    def entered(self, f):
        return f is not None and f.get("body") and id(f) in self.info.relevant and len(self.frames) <= self.DEPTH and \
            not any(fr.f is f for fr in self.frames)

    def result(self, e, key=None):
        r = self.result_(e, key)
        if r[0] == "p" and e["k"] == "mcall" and (e.get("callee") or "").split("::")[-1] in self.info.getters:
            for a in r[1]:
                self.borrowed[a] = e["callee"]
        return r

    def result_(self, e, key=None):
        t = e.get("t", "")
        if isptr(t):
            if key is not None:
                return ("p", frozenset([("init", ("call",) + key)]))
            return ("p", frozenset([self.fresh("unk")]))
        if scalar(t):
            if key is not None:
                return ("t", ("call",) + key)
            return self.term()
        return ("obj", ("res",) + key) if key is not None else ("obj", self.fresh("tmp", t))

    def retv(self, r, e):
        if r is None:
            return self.result(e)
        if r[0] == "ads":
            t = e.get("t", "")
            if isptr(t) or scalar(t):
                return self.load(r[1], t)
            return ("obj", next(iter(r[1])))
        return r

    def call(self, e, obj):
        c = e.get("callee") or ""
        short = c.split("::")[-1]
        if e.get("noreturn") or short in ("abort", "exit", "mfem_error", "__assert_fail"):
            raise Stop()
        f = self.P.callee(e)
        if self.entered(f):
            return self.retv(self.run(f, None, self.bind(f, e["a"])), e)
        if not c and e.get("fn"):
            self.ev(e["fn"])
        vs = self.args(e)
        if MAKES.match(c) and isptr(e.get("t", "")):
            for v in vs:
                pass
            return ("p", frozenset([self.alloc(pointee(e["t"]), False, short)]))
        self.passed(e, vs, adopt=f is None or not f.get("body") or id(f) in self.info.relevant)
        return self.result(e)

    def mcall(self, e):
        c = e.get("callee") or "?"
        short = c.split("::")[-1]
        ob = e["obj"]
        if ob is None or ob["k"] == "this":
            os_ = frozenset([self.frames[-1].this])
        elif e.get("arrow"):
            os_ = self.follow(ob)
        else:
            os_ = self.lv(ob)
        if e.get("noreturn"):
            raise Stop()
        o = next(iter(os_)) if len(os_) == 1 else None
        f = self.P.callee(e)
        if e.get("virt") and not e.get("qual"):
            t = self.types.get(o)
            f = self.lookup(t, short, e.get("cty")) if t else None
            if t is None and o is not None and not e.get("arrow") and o[0] != "this":
                f = self.P.callee(e)
        if self.entered(f) and o is not None and not short.startswith("~"):
            return self.retv(self.run(f, o, self.bind(f, e["a"])), e)
        cls = cname(e.get("cls", ""))
        if PLAIN.match(cls):
            r = self.plain(e, short, os_)
            if r is not None:
                return r
        vs = self.args(e)
        if MAKES.match(c) and isptr(e.get("t", "")):
            return ("p", frozenset([self.alloc(pointee(e["t"]), False, short)]))
        adopt = f is None or not f.get("body") or id(f) in self.info.relevant
        self.passed(e, vs, adopt=adopt)
        if not e.get("cconst"):
            for a in os_:
                self.forget([a])
                if adopt and self.root(a)[0] not in ("new",) or a[0] == "this":
                    if f is None or not f.get("body") or id(f) in self.info.relevant:
                        if a == self.frames[-1].this and (f is not None or e.get("virt")):
                            self.gone_below(a)
                            for k in list(self.kids.get(a, ())):
                                if k[0] == "f" and (k in self.store and self.store[k][0] == "p" or self.kids.get(k)):
                                    self.store.pop(k, None)
                                    self.drop(k)
            return self.result(e)
        try:
            key = (short, tuple(sorted(os_, key=repr)), tuple((v[0], tuple(sorted(v[1], key=repr))) if v[0] in ("p", "ads") else v
                                                              for v in vs))
            hash(key)
        except TypeError:
            key = None
        return self.result(e, key)

    def lookup(self, cls, name, typ):
        for f in self.P.by_name.get("%s::%s" % (cls, name), []):
            if f["type"] == typ:
                return f
        for b in self.bases(cls):
            f = self.lookup(cname(b), name, typ)
            if f is not None:
                return f
        return None

    def plain(self, e, short, os_):
        """Containers that do not own what their pointers refer to."""
        ptrs = "*" in (e["obj"].get("t", "") if e["obj"] is not None else "")
        if short in GROW and len(e["a"]) >= 1:
            for x in e["a"]:
                v = self.ev(x)
                for a in os_:
                    el = ("el", a, ("t", self.fresh("any", "new")))
                    if v[0] == "obj":
                        self.copy(el, v[1])
                        self.link(el)
                    elif v[0] in ("p", "c", "t", "undef"):
                        self.unsweep(a)
                        self.store[el] = v
                        self.link(el)
            for a in os_:
                self.forget([a])
            return self.term()
        if short == "SetSize":
            vs = [self.ev(x) for x in e["a"] if x is not None]
            for a in os_:
                self.forget([a])
                if len(vs) == 2 and cname(e.get("cls", "")) == "mfem::Array" or len(vs) == 3:
                    self.fillall(a, vs[-1])
            return ("c", 0)
        if short in ("DeleteAll", "clear"):
            for a in os_:
                self.unsweep(a)
                self.drop(a)
                self.forget([a])
            return ("c", 0)
        if short in CLEAR:
            for a in os_:
                self.gone_below(a)
                self.drop(a)
                self.forget([a])
            for x in e["a"]:
                if x is not None:
                    self.escape(self.ev(x))
            return self.term()
        if short in ("Last", "back", "front", "at"):
            return self.load(self.lv(e), e.get("t", ""))
        if short in ("Size", "size", "NumRows", "NumCols"):
            return ("t", ("n", tuple(sorted(os_, key=repr)), short))
        if short in ("begin", "end", "GetData", "data", "find"):
            for x in e["a"]:
                if x is not None:
                    self.ev(x)
            if short == "GetData" and isptr(e.get("t", "")):
                return ("p", frozenset(os_))
            return ("p", frozenset(("el", a, ("t", self.fresh("any", "it"))) for a in os_)) if short in ("begin", "find") else self.term()
        return None

    def fillall(self, a, v):
        self.drop(a)
        if v[0] == "c" and v[1] == 0:
            v = ("p", frozenset([NULL]))
        if v[0] == "p":
            el = ("el", a, ("t", ("all",)))
            self.store[el] = v
            self.link(el)

    def opcall(self, e):
        op = e["op"]
        a = e["a"]
        f = self.P.callee(e)
        member = (e.get("cls") is not None)
        if member and self.entered(f):
            v = self.lv(a[0])
            if len(v) == 1:
                return self.retv(self.run(f, next(iter(v)), self.bind(f, a[1:])), e)
        if op in ("[]", "()") and len(a) >= 2 and self.container(a[0]):
            return self.load(self.lv(e), e.get("t", ""))
        if op in ("*", "->") and len(a) == 1:
            return self.load(self.lv(e), e.get("t", ""))
        if op == "=" and len(a) == 2:
            v = self.ev(a[1])
            ads = self.lv(a[0])
            if self.container(a[0]) and v[0] in ("p", "c"):
                for x in ads:
                    self.fillall(x, v)
                return ("obj", next(iter(ads)))
            for x in ads:
                if v[0] == "obj" and x != v[1]:
                    self.copy(x, v[1])
                elif v[0] != "obj":
                    self.drop(x)
            self.forget(list(ads))
            return ("obj", next(iter(ads))) if ads else self.term()
        if op in ("==", "!="):
            x, y = self.ev(a[0]), self.ev(a[1])
            k = ("t", ("eq",) + tuple(sorted((x, y), key=repr)))
            return k if op == "==" else ("t", ("!", k))
        if op in ("<<", ">>"):
            for x in a:
                self.ev(x)
            return ("obj", self.fresh("tmp"))
        skip = 1 if member else 0
        if member:
            self.lv(a[0])
        vs = self.args({"a": a[skip:], "pt": e.get("pt") or []})
        self.passed({"pt": e.get("pt") or []}, vs)
        if member and op in ("+=", "-=", "*=", "/="):
            return ("obj", next(iter(self.lv(a[0]))))
        if member and e.get("cconst"):
            return self.result(e)
        return self.result(e)

    # ------------------------------------------------------------ statements
    def stmt(self, s):
        if s is None:
            return
        self.steps += 1
        if self.steps > self.MAXSTEPS:
            raise Undecided("too long")
        k = s["k"]
        if s.get("l"):
            self.line = s["l"]
        if k == "block":
            for x in s["s"]:
                self.stmt(x)
        elif k == "expr":
            self.ev(s["e"])
        elif k == "decl":
            for v in s["v"]:
                self.decl(v)
        elif k == "if":
            if s.get("init"):
                self.stmt(s["init"])
            if s.get("cvar"):
                self.decl(s["cvar"])
            th, el = s.get("th") or s.get("then") or s.get("x"), s.get("el") or s.get("else") or s.get("y")
            if not self.info.touches(s):
                self.ev_quiet(s["c"])
                self.skip(s, [th, el])
                return
            if self.cond(s["c"]):
                self.stmt(th)
            elif el is not None:
                self.stmt(el)
        elif k in ("for", "while", "do", "rfor"):
            self.loop(s)
        elif k == "switch":
            self.switch(s)
        elif k in ("case", "default", "label"):
            self.stmt(s["s"])
        elif k == "break":
            raise Jump("break")
        elif k == "continue":
            raise Jump("continue")
        elif k == "return":
            e = s["e"]
            if e is None:
                raise Ret(None)
            t = self.frames[-1].f.get("ret", "")
            if t.strip().endswith("&"):
                raise Ret(("ads", self.lv(e)))
            raise Ret(self.ev(e))
        elif k == "nop":
            pass
        elif k == "try":
            self.stmt(s["body"])
        elif k in ("goto", "otherstmt"):
            raise Undecided(k)

    def ev_quiet(self, e):
        self.ev(e) if not self.forks(e) else None

    def forks(self, e):
        return any(x["k"] == "bin" and x["op"] in ("&&", "||") or x["k"] == "cond" for x in ir.walk(e))

    def skip(self, s, parts):
        """Statements that move no pointers: their expressions are looked at, what they assign is unknown afterwards."""
        for a in self.assigned(s):
            self.write([a], self.term())
        for p in parts:
            if p is None:
                continue
            for x in ir.stmts(p):
                if x["k"] == "decl":
                    for v in x["v"]:
                        a = ("v", self.frames[-1].uid, v["id"], v["n"])
                        self.drop(a)
                        self.store[a] = ("p", frozenset([self.fresh("unk")])) if isptr(v["t"]) else self.term()
                        if v["t"].strip().endswith("&"):
                            self.frames[-1].alias[v["id"]] = frozenset([self.fresh("unk")])
                        if isptr(v["t"]) and v.get("init"):
                            if not self.forks(v["init"]):
                                self.store[a] = self.ev(v["init"])
        known = {}
        for p in parts:
            if p is None:
                continue
            for x in ir.stmts(p):
                for e in ir.stmt_exprs(x):
                    if e is None:
                        continue
                    for y in ir.walk(e):
                        o = None
                        if y["k"] == "mcall" and y.get("arrow"):
                            o = y["obj"]
                        elif y["k"] == "mem" and y.get("arrow"):
                            o = y.get("b")
                        elif y["k"] == "un" and y["op"] == "*":
                            o = y["e"]
                        if o is not None:
                            z = ir.strip(o)
                            if z["k"] in ("ref",) or z["k"] == "mem" and (z.get("b") is None or z["b"]["k"] == "this"):
                                if z.get("dk") in ("local", "param", "field"):
                                    self.line = y.get("l") or self.line
                                    self.use(self.load(self.lv(z), z.get("t", "")), ir.show(z))

    def assigned(self, s):
        out = {}
        for x in ir.stmts(s):
            for e in ir.stmt_exprs(x):
                if e is None:
                    continue
                for y in ir.walk(e):
                    t = None
                    if y["k"] == "assign":
                        t = y["x"]
                    elif y["k"] == "un" and y["op"] in ("++", "--"):
                        t = y["e"]
                    if t is None:
                        continue
                    t = ir.strip(t)
                    while t["k"] == "cast":
                        t = ir.strip(t["e"])
                    if t["k"] == "ref" and t.get("dk") in ("local", "param") and not isptr(t.get("t", "")):
                        ads = self.lv(t)
                        for a in ads:
                            out[a] = 1
                    elif t["k"] == "mem" and t.get("dk") == "field" and (t.get("b") is None or t["b"]["k"] == "this") \
                            and not isptr(t.get("t", "")):
                        out[("f", self.frames[-1].this, t["n"])] = 1
        return list(out)

    def decl(self, v):
        fr = self.frames[-1]
        t = v["t"].strip()
        a = ("v", fr.uid, v["id"], v["n"])
        i = v.get("init")
        if v.get("static"):
            fr.alias[v["id"]] = frozenset([("g", v["n"] + str(v["id"]))])
            if i is not None and isptr(t):
                self.escape(self.ev(i))
            return
        if t.endswith("&"):
            if i is not None:
                fr.alias[v["id"]] = self.lv(i)
            return
        self.drop(a)
        self.store.pop(a, None)
        fr.locals.append((a, t))
        if i is None:
            if isptr(t):
                self.store[a] = UNDEF
            return
        x = i
        while x["k"] in ("cast", "other") and (x.get("e") or x.get("a")) and not isptr(t):
            x = x["e"] if x["k"] == "cast" else x["a"][0]
            if x is None:
                return
        if x["k"] == "ctor" and not isptr(t):
            self.construct(a, x)
            return
        val = self.ev(i)
        if isptr(t) and val == ("c", 0):
            val = ("p", frozenset([NULL]))
        if val[0] == "obj":
            self.copy(a, val[1])
        else:
            self.store[a] = val

    def switch(self, s):
        v = self.ev(s["c"])
        body = s["body"]
        items = body["s"] if body["k"] == "block" else [body]
        flat = []
        for x in items:
            labs = []
            while x["k"] in ("case", "default"):
                labs.append(x)
                x = x["s"]
            flat.append((labs, x))
        n = None
        dflt = None
        for i, (labs, x) in enumerate(flat):
            for lb in labs:
                if lb["k"] == "default":
                    dflt = i
                elif n is None:
                    c = self.ev(lb["v"])
                    if c[0] == "c" and v[0] == "c":
                        hit = c == v
                    else:
                        hit = self.decide(("eq",) + tuple(sorted((v, c), key=repr)))
                    if hit:
                        n = i
        if n is None:
            n = dflt
        if n is None:
            return
        try:
            for labs, x in flat[n:]:
                self.stmt(x)
        except Jump as j:
            if j.k != "break":
                raise

    def loop(self, s):
        if s["k"] == "for" and s.get("init"):
            self.stmt(s["init"])
        if not self.info.touches(s):
            self.skip(s, [s["body"]])
            return
        # constant number of rounds
        if s["k"] == "for" and s["c"] is not None:
            n = 0
            while n < 4:
                c = self.ev(s["c"]) if not self.forks(s["c"]) else ("t", 0)
                if c[0] != "c":
                    break
                if not c[1]:
                    return
                try:
                    self.stmt(s["body"])
                except Jump as j:
                    if j.k == "break":
                        return
                if s["inc"] is not None:
                    self.ev(s["inc"])
                n += 1
        # a generic round
        self.n += 1
        f, l = self.at()
        key = ("loop", tuple(x.uid for x in self.frames), s.get("l"))
        if s["k"] == "rfor":
            r = self.lv(s["range"])
            key = ("some", tuple(sorted(r, key=repr)))
        elif s["k"] != "do" and s["c"] is not None:
            x = ir.strip(s["c"])
            if x["k"] == "bin" and x["op"] in ("<", "!=", ">", "<=", ">=") and not self.forks(s["c"]):
                y, z = self.ev(x["x"]), self.ev(x["y"])
                key = ("some", y, x["op"], z)
        if s["k"] != "do" and not self.decide(key, True):
            return
        part = self.partial(s)
        for a in self.assigned(s):
            t = self.term("it")
            self.level[t[1]] = len(self.since)
            self.loopterms[t[1]] = 2 if part is not None and a[0] == "v" and a[2] == part else 1
            self.write([a], t)
        if s["k"] == "rfor":
            v = s["var"]
            it = self.fresh("any", "it")
            self.loopterms[it] = 1
            self.level[it] = len(self.since)
            els = frozenset(("el", a, ("t", it)) for a in r)
            if v["t"].strip().endswith("&"):
                self.frames[-1].alias[v["id"]] = els
            else:
                a = ("v", self.frames[-1].uid, v["id"], v["n"])
                x = self.load(els, v["t"])
                if x[0] == "obj":
                    self.copy(a, x[1])
                else:
                    self.store[a] = x
                if els and isptr(v["t"]):
                    self.rforvar = (a, els)
        elif s["c"] is not None and s["k"] != "do" and not self.forks(s["c"]):
            self.ev(s["c"])
        self.pending.append(set())
        self.since.append(len(self.used))
        try:
            self.stmt(s["body"])
        except Jump:
            pass
        finally:
            done = self.pending.pop()
            self.since.pop()
        for c, l, w in done:
            self.swept[c] = l
            if w:
                self.sweptall.add(c)
        for a in self.assigned(s):
            self.write([a], self.term("after"))

    # ------------------------------------------------------------ the end of a path
    def live(self, roots, skip=()):
        """Objects still allocated that nothing outside refers to."""
        seen = set()
        todo = list(roots)
        while todo:
            a = todo.pop()
            if a in seen or a[0] in ("null", "undef"):
                continue
            seen.add(a)
            if self.status.get(a) in ("swept", "freed"):
                continue
            for k in list(self.below(a)):
                seen.add(k)
                v = self.store.get(k)
                if v and v[0] == "p":
                    todo.extend(v[1])
            r = self.root(a)
            if r != a:
                todo.append(r)
        return [o for o, st in self.status.items() if st == "live" and o[0] == "new" and o not in seen]


class Path:
    pass


def walks(info, f, this=("this",), limit=96, then=None, adopt=None):
    """All paths of a function: [Path(heap, ret, stopped)]; then(heap) runs after each that returns."""
    out, todo = [], [[]]
    total = 0
    while todo:
        sc = todo.pop()
        h = Heap(info, sc)
        h.types[this] = f.get("cls")
        p = Path()
        p.heap, p.ret, p.stopped = h, None, False
        b = []
        h.frames.append(Frame(f, this, 0))
        for q in f["params"]:
            t = q["t"].strip()
            if t.endswith("&"):
                b.append((q, "ref", frozenset([("par", q["n"])])))
            elif isptr(t) and adopt and adopt(pointee(t)):
                b.append((q, "val", ("p", frozenset([h.alloc(pointee(t), None, "parameter '%s'" % q["n"])]))))
            elif isptr(t):
                b.append((q, "val", ("p", frozenset([("init", ("par", q["n"]))]))))
            elif scalar(t):
                b.append((q, "val", ("t", ("par", q["n"]))))
            else:
                b.append((q, "val", ("obj", ("par", q["n"]))))
        try:
            p.ret = h.run(f, this, b)
            if then:
                then(h, p)
        except Stop:
            p.stopped = True
        except Jump:
            raise Undecided("jump")
        out.append(p)
        total += h.steps
        for i in range(len(h.used) - 1, len(sc) - 1, -1):
            if h.used[i][1] and i not in h.forced:
                todo.append([v for t, v in h.used[:i]] + [False])
        if len(out) >= limit or total > 1500000:
            break
    return out, not todo
