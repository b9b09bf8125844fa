"""C03: a loader finds every entry it needs, with the type and shape it was saved with, and puts it back where it came from.

Every saver is walked (eff.py) on a symbolic object into a symbolic file, and its loader is then walked on that file. Loops over
the same range share one generic index, so what is loaded into element k is compared with what was saved from element k; no size
or content is fixed. A pair that is itself checked is used as one step in the pairs built on it.
"""
import re
from . import eff, ir
from .eff import I, S, TRUE, FALSE, NULLT, Undecided, Abort, Ret, Jump, Event, show
from .report import main

CTYPE = {"H5T_NATIVE_INT_g": "int", "H5T_NATIVE_DOUBLE_g": "double", "H5T_NATIVE_HBOOL_g": "bool", "H5T_NATIVE_FLOAT_g": "float",
         "H5T_NATIVE_UINT_g": "unsigned int", "H5T_NATIVE_LONG_g": "long", "H5T_NATIVE_LLONG_g": "long long",
         "H5T_NATIVE_SHORT_g": "short", "H5T_NATIVE_SCHAR_g": "signed char", "H5T_NATIVE_UCHAR_g": "unsigned char",
         "H5T_NATIVE_UINT8_g": "unsigned char", "H5T_NATIVE_INT8_g": "signed char", "H5T_NATIVE_INT32_g": "int",
         "H5T_NATIVE_INT64_g": "long", "H5T_NATIVE_LDOUBLE_g": "long double", "H5T_NATIVE_INT16_g": "short",
         "H5T_NATIVE_UINT16_g": "unsigned short", "H5T_NATIVE_USHORT_g": "unsigned short"}
# element type -> file types that hold every value of it
HOLDS = {"int": {"int", "long", "long long", "double", "long double"}, "double": {"double", "long double"},
         "bool": {"bool", "int", "long", "long long", "unsigned int", "short", "signed char", "unsigned char", "float", "double",
                  "unsigned short", "long double"}}
SHAPES = {"mfem::Array": ("Size",), "mfem::Vector": ("Size",), "std::vector": ("size",), "mfem::Array2D": ("NumRows", "NumCols"),
          "mfem::DenseMatrix": ("Height", "Width"), "mfem::DenseTensor": ("SizeI", "SizeJ", "SizeK"),
          "mfem::SparseMatrix": ("Height", "Width"), "mfem::BlockMatrix": ("NumRowBlocks", "NumColBlocks")}
DIMS = {"Size": 0, "size": 0, "Height": 0, "NumRows": 0, "Width": 1, "NumCols": 1, "SizeI": 0, "SizeJ": 1, "SizeK": 2,
        "NumRowBlocks": 0, "NumColBlocks": 1}
OPP = {"Write": "Read", "Save": "Load"}
ROUND = 0


def base(name):
    return name.split("::")[-1].split("<")[0]


def canon(t):
    t = re.sub(r"\bconst\b", "", t)
    t = t.replace("std::basic_string<char, std::char_traits<char>, std::allocator<char>>", "string").replace("std::string", "string")
    return re.sub(r"[\s&*]+", "", t)


def subterms(t):
    st, seen = [t], set()
    while st:
        x = st.pop()
        if not isinstance(x, tuple) or id(x) in seen:
            continue
        seen.add(id(x))
        if x and isinstance(x[0], str):
            yield x
        st += [y for y in x if isinstance(y, tuple)]


def has(t, x):
    return any(y == x for y in subterms(t))


def rep(t, d):
    if not isinstance(t, tuple):
        return t
    if t in d:
        return d[t]
    return tuple(rep(x, d) for x in t)


class Sizes(dict):
    """Sizes of containers, with the loop nest in which they were set."""
    def __init__(self, w):
        super().__init__()
        self.w, self.depth = w, {}

    def __setitem__(self, k, v):
        self.depth[k] = len(self.w.gens)
        super().__setitem__(k, v)


class File(eff.Walk):
    ARR = eff.Walk.ARR + ("mfem::DenseTensor", "std::unordered_map")

    def __init__(self, prog, script=(), inline=lambda f, e: True, keep=False, steps=None):
        super().__init__(prog, script, inline, keep)
        self.gens = []
        self.size = Sizes(self)
        self.cls = {}
        self.entries = {}       # key -> dict
        self.readkeys = set()
        self.reading = False
        self.bad = []           # (code, line, function, message)
        self.rows = set()
        self.summary = steps or {}
        self.appended = {}
        self.newcls = {}
        self.files = set()
        self.world = False

    # ------------------------------------------------------------ values
    def say(self, code, msg):
        fr = self.frames[-1].f
        self.bad.append((code, fr, self.line, msg))

    def ev(self, e):
        if e["k"] == "ilist":
            r = self.P.records.get(e.get("t", ""))
            fs = [x["n"] for x in (r or {}).get("fields", [])]
            if fs and len(fs) == len(e["a"]):
                return ("rec", e["t"]) + tuple((n, self.val(x)) for n, x in zip(fs, e["a"]))
        return super().ev(e)

    def read(self, a):
        if a[0] == "fld":
            b = a[1]
            if b[0] != "rec" and b in self.store:
                b = self.store[b]
            if b[0] == "rec":
                for n, v in b[2:]:
                    if n == a[2]:
                        return v
        if a[0] == "idx" and len(a) == 3 and a[1][0] == "idx" and len(a[1]) == 3 and a[1] in self.rows:
            return self.read(("idx", a[1][1], a[1][2], a[2]))
        return super().read(a)

    def lv(self, e):
        a = super().lv(e)
        if a[0] == "idx" and len(a) == 3 and a[1] in self.rows:
            a = ("idx", a[1][1], a[1][2], a[2])
        return a

    def snap(self, a):
        r = super().snap(a)
        return r

    def shape(self, o, cls):
        s = self.arrsize(o)
        n = len(SHAPES.get(cls, ("Size",)))
        if s is not None:
            return s[1:1 + n] if s[0] == "pair" else (s,)
        c = self.content(o)
        return tuple(("dim", c, k) for k in range(n))

    def dim(self, e, o):
        if o is None:
            return None
        c = e.get("cls", "")
        short = base(e["callee"])
        if c not in SHAPES and not c.startswith("mfem::"):
            return None
        self.cls.setdefault(o, c)
        s = self.arrsize(o)
        k = DIMS[short]
        if s is not None:
            if s[0] == "pair":
                return s[1 + k] if 1 + k < len(s) else None
            return s if k == 0 else None
        if c == "mfem::DenseMatrix" and short == "Size":
            return ("dim", self.content(o), 0)
        return ("dim", self.content(o), k)

    m_Size = m_size = m_NumRows = m_NumCols = m_Height = m_Width = m_SizeI = m_SizeJ = m_SizeK = m_NumRowBlocks = m_NumColBlocks = \
        lambda self, e, o, args: self.dim(e, o)

    def m_Read(self, e, o, args):
        if o is None or args and len(args) > 1:
            return None
        self.cls[o] = e.get("cls", "")
        return o

    m_Write = m_ReadWrite = m_HostRead = m_HostWrite = m_HostReadWrite = m_Data = m_begin = m_Read

    def m_data(self, e, o, args):
        return self.m_Read(e, o, args)

    def m_GetData(self, e, o, args):
        if e.get("cls") == "mfem::SparseMatrix":
            return ("fld", self.rv(o), "data")
        return self.m_Read(e, o, args)

    def m_GetI(self, e, o, args):
        return ("fld", self.rv(o), "I") if e.get("cls") == "mfem::SparseMatrix" else None

    def m_GetJ(self, e, o, args):
        return ("fld", self.rv(o), "J") if e.get("cls") == "mfem::SparseMatrix" else None

    def m_GetRow(self, e, o, args):
        if e.get("cls") != "mfem::Array2D" or len(args) != 1:
            return None
        self.cls[o] = "mfem::Array2D"
        r = ("idx", o, self.rv(args[0][0]))
        self.rows.add(r)
        return r

    def m_MakeRef(self, e, o, args):
        if e.get("cls") != "mfem::Array" or len(args) < 2:
            return None
        self.drop(o)
        self.write(o, self.content(args[0][0]))
        self.size[o] = self.rv(args[1][0])
        return ("void",)

    def m_StealData(self, e, o, args):
        if e.get("cls") != "mfem::Array":
            return None
        v = self.content(o)
        if args:
            self.write(args[0][0], v)
        self.drop(o)
        self.store.pop(o, None)
        self.size[o] = I(0)
        return v

    def m_Append(self, e, o, args):
        if self.gens and o is not None and len(args) == 1:
            s = self.arrsize(o)
            d = self.size.depth.get(o, -1)
            if s is None or s != I(0) or d != len(self.gens) - 1 or self.gens[-1][1][0] != "int":
                raise Undecided("list built in a nest of loops")
            g = self.gens[-1]
            if g[1] != I(0):
                g = ("gen", I(0), self.arith("-", g[2], g[1]), g[3])
            v = self.rv(args[0][0])
            self.put(("idx", o, g), v)
            self.size[o] = self.arith("+", g[2], I(1))
            return ("void",)
        return super().m_Append(e, o, args)

    m_push_back = m_Append

    def opcall(self, e, lval=False):
        if e["op"] in ("[]", "()") and e.get("cls") in self.ARR:
            o = self.lv(e["a"][0])
            self.cls.setdefault(o, e["cls"])
        return super().opcall(e, lval)

    def new_(self, e):
        a = super().new_(e)
        self.newcls[a] = e.get("at", "").strip()
        return a

    def opaque(self, name, recv, args, e, const=True, extra=()):
        vals = [self.content(v) for v, m in args]
        keep = [v for v, (x, m) in zip(vals, args) if not (m and isinstance(x, tuple) and x[0] in ("var", "fld", "idx", "new") and
                                                           self.is_local(x))]
        r = self.content(recv) if recv is not None else None
        ev = Event("call", name, r, vals, e.get("l", self.line), self.frames[-1].f, e)
        ev.recv_addr, ev.addrs = recv, [v for v, m in args]
        self.events.append(ev)
        for k, (v, m) in enumerate(args):
            if m and isinstance(v, tuple) and v[0] in ("var", "fld", "idx", "new") and self.is_local(v):
                self.drop(v)
                self.size.pop(v, None)
                self.write(v, ("out", name, k, r) + tuple(keep))
        if recv is not None and not const and isinstance(recv, tuple) and self.is_local(recv) and self.root(recv)[0] == "var":
            self.drop(recv)
            self.size.pop(recv, None)
            self.write(recv, ("upd", name, r) + tuple(keep))
        return ("call", name, r) + tuple(vals)

    # ------------------------------------------------------------ loops: one index per range
    def generic(self, s):
        steps = self.counters(s)
        starts = {a: self.store.get(a) for a in steps}
        for a, name in self.assigned(s):
            self.drop(a)
            self.n += 1
            self.store[a] = ("any", self.n, name)
        g = None
        if s["k"] == "rfor":
            v = s["var"]
            r = self.lv(s["range"])
            r = self.store.get(r, r) if r not in self.size else r
            a = self.new("loc", v["n"])
            self.local.add(a)
            n = self.arrsize(r) or ("dim", self.content(r), 0)
            g = self.gen(I(0), self.arith("-", n, I(1)))
            el = self.read(("idx", r, g))
            if v["t"].rstrip().endswith("&"):
                self.frames[-1].vars[v["id"]] = ("idx", r, g)
            else:
                self.frames[-1].vars[v["id"]] = a
                self.store[a] = el
        else:
            c = self.ev(s["c"]) if s["c"] is not None and s["k"] != "do" else TRUE
            if c[0] == "int" and not c[1]:
                return
            for a, d in steps.items():
                if starts[a] is not None:
                    sp = self.span(c, self.store[a], starts[a], d)
                    if sp:
                        g = self.gen(sp[0], sp[1])
                        c = rep(c, {self.store[a]: g})
                        self.store[a] = g
                        break
            self.hold(c)
        if g is not None:
            self.gens.append(g)
        try:
            self.stmt(s["body"])
        except Jump as j:
            if j.k == "break":
                raise Undecided("loop left early")
        finally:
            if g is not None:
                self.gens.pop()
        for a, name in self.assigned(s):
            self.n += 1
            if a in self.store and self.store[a][0] in ("any", "int", "+", "gen"):
                self.store[a] = ("any", self.n, name)

    def span(self, c, t, start, d):
        n = c[1] if c[0] == "not" else c
        if n[0] == "<":
            for i, j in ((1, 2), (2, 1)):
                if n[i][0] == "+" and n[i][1] == t and n[i][2][0] == "int":
                    m = ("<",) + ((t, self.arith("-", n[j], n[i][2])) if i == 1 else (self.arith("-", n[j], n[i][2]), t))
                    return super().span(("not", m) if c[0] == "not" else m, t, start, d)
        return super().span(c, t, start, d)

    def compare(self, op, x, y):
        if x != y and x[0] not in ("int", "flt", "str") and y[0] not in ("int", "flt", "str"):
            d = self.diff(x, y)
            if d is not None:
                return super().compare(op, d, I(0))
        return super().compare(op, x, y)

    def gen(self, lo, hi):
        k = sum(1 for g in self.gens if g[1:3] == (lo, hi))
        return ("gen", lo, hi, k)

    # ------------------------------------------------------------ steps
    def call(self, e):
        f = self.P.callee(e)
        if f is not None:
            st = self.summary.get(id(f))
            if st is not None:
                return self.step(st, f, None, e)
            return super().call(e)
        h = getattr(self, "h_" + base(e.get("callee") or "?"), None)
        if h:
            a = [self.ev(x) for x in e["a"] if x is not None]
            return h(e, a)
        if (e.get("callee") or "").startswith("H5") and e["callee"].endswith("close"):
            for x in e["a"]:
                self.ev(x)
            return I(0)
        return super().call(e)

    def mcall(self, e):
        f = self.P.callee(e)
        if f is not None and id(f) in self.summary:
            ob = e["obj"]
            o = self.frames[-1].this if ob is None or ob["k"] == "this" else self.ev(ob) if e.get("arrow") else self.lv(ob)
            return self.step(self.summary[id(f)], f, o, e)
        return super().mcall(e)

    def step(self, st, f, o, e):
        save, p = st
        a = []
        for i, x in enumerate(e["a"]):
            if x is None:
                continue
            a.append(self.lv(x) if e.get("pt", [""] * 9)[i].rstrip().endswith("&") else self.ev(x))
        loc, name = self.rv(a[0]), self.rv(a[1])
        kind = (p["stem"], p["ctype"])
        if o is None:
            mids = tuple(self.rv(x) for x in a[2:2 + p["mid"]])
            val = a[2 + p["mid"]] if len(a) > 2 + p["mid"] else None
        else:
            mids, val = tuple(self.rv(x) for x in a[2:]), o
        key = (("att" if p["stem"] == "Attribute" else "obj"), loc, name)
        if save:
            if key in self.entries:
                self.say("twice", "%s is written twice" % self.kname(key))
            n = self.new("ent", "entry")
            self.local.add(n)
            self.stash(n, val)
            en = self.entries[key] = dict(kind=kind, mids=mids, ent=n, line=self.line, f=self.frames[-1].f)
            cls = kind[1].split("<")[0]
            if p["stem"] == "Dataset" and cls in SHAPES:
                en["dims"] = self.shape(val, cls)
                if cls in ("mfem::DenseMatrix", "mfem::DenseTensor"):
                    en["dims"] = en["dims"][::-1]
            return ("void",)
        en = self.find(key)
        if en is None:
            return ("lost", key)
        if "kind" not in en:
            raise Undecided("entry written otherwise")
        if en["kind"] != kind:
            self.say("kind", "%s was saved as %s and is loaded as %s" % (self.kname(key), "/".join(en["kind"]), "/".join(kind)))
            raise Abort("kind")
        if en["mids"] != mids:
            self.say("kind", "%s was saved for %s and is loaded for %s" % (self.kname(key), show(en["mids"]), show(mids)))
            raise Abort("kind")
        if p["ret"]:
            return self.rv(en["ent"])
        self.copy_to(val, en["ent"])
        return ("void",)

    def stash(self, n, val):
        if isinstance(val, tuple) and val[0] in ("var", "fld", "idx") and (self.kidsof.get(val) or val in self.size):
            self.copy_to(n, val)
            if n in self.store and self.store[n][0] in ("var",):
                pass
        else:
            self.store[n] = self.rv(val)

    def find(self, key):
        en = self.entries.get(key)
        if en is None:
            self.readkeys.add(key)
            if self.world or any(x[0] in ("any", "var", "lost") for x in subterms(key)):
                raise Undecided("name of an entry")
            self.say("missing", "loads %s, which is not saved" % self.kname(key))
            raise Abort("missing")
        self.readkeys.add(key)
        return en

    def kname(self, key):
        return "'%s'" % re.sub(r"\s+", " ", show(key[2]))[:80]

    # ------------------------------------------------------------ HDF5
    def h_H5Fcreate(self, e, a):
        k = ("h5file", self.rv(a[0]))
        self.files.add(k)
        return k

    def h_H5Fopen(self, e, a):
        k = ("h5file", self.rv(a[0]))
        if self.reading and k not in self.files and len(self.files) == 1:
            return next(iter(self.files))       # the file loaded is the file saved
        if not self.reading and k not in self.files:
            if any(v and t[0] == "==" and k[1] in t[1:] and S("") in t[1:] for t, v in self.used):
                raise Abort("no file")
            self.world = True                   # adds to what is there already
            self.files.add(k)
        return k

    def h_H5Gcreate2(self, e, a):
        k = ("h5grp", self.rv(a[0]), self.rv(a[1]))
        self.entries.setdefault(("grp",) + k[1:], dict(line=self.line, f=self.frames[-1].f, group=True))
        return k

    def h_H5Gopen2(self, e, a):
        k = ("h5grp", self.rv(a[0]), self.rv(a[1]))
        if self.reading:
            self.find(("grp",) + k[1:])
        return k

    def h_H5Screate(self, e, a):
        return ("h5space",)

    def h_H5Screate_simple(self, e, a):
        if a[0][0] != "int":
            raise Undecided("rank")
        return ("h5space",) + tuple(self.rv(("idx", a[1], I(k))) for k in range(a[0][1]))

    def create(self, what, a):
        key = (what, self.rv(a[0]), self.rv(a[1]))
        if key in self.entries:
            self.say("twice", "%s is written twice" % self.kname(key))
        sp = self.rv(a[3])
        if sp[0] != "h5space":
            raise Undecided("shape")
        self.entries[key] = dict(type=self.rv(a[2]), dims=sp[1:], ent=None, line=self.line, f=self.frames[-1].f)
        return ("h5d", key)

    def h_H5Dcreate2(self, e, a):
        return self.create("obj", a)

    def h_H5Acreate2(self, e, a):
        return self.create("att", a)

    def open(self, what, a):
        key = (what, self.rv(a[0]), self.rv(a[1]))
        self.find(key)
        return ("h5d", key)

    def h_H5Dopen2(self, e, a):
        return self.open("obj", a)

    def h_H5Aopen_name(self, e, a):
        return self.open("att", a)

    def h_H5Aopen(self, e, a):
        return self.open("att", a)

    def entry(self, h):
        h = self.rv(h)
        if h[0] != "h5d" or h[1] not in self.entries or "dims" not in self.entries[h[1]]:
            raise Undecided("handle")
        return self.entries[h[1]]

    def h_H5Dget_space(self, e, a):
        return ("h5space",) + self.entry(a[0])["dims"]

    h_H5Aget_space = h_H5Dget_space

    def h_H5Dget_type(self, e, a):
        en = self.entry(a[0])
        if "type" not in en:
            raise Undecided("entry written otherwise")
        return en["type"]

    h_H5Aget_type = h_H5Dget_type

    def h_H5Tcopy(self, e, a):
        return self.rv(a[0])

    h_H5Tget_native_type = h_H5Tcopy

    def h_H5Tcreate(self, e, a):
        return ("h5type",) + tuple(self.rv(x) for x in a)

    def h_H5Sget_simple_extent_ndims(self, e, a):
        s = self.rv(a[0])
        if s[0] != "h5space":
            raise Undecided("shape")
        return I(len(s) - 1)

    def h_H5Sget_simple_extent_dims(self, e, a):
        s = self.rv(a[0])
        if s[0] != "h5space":
            raise Undecided("shape")
        for k, x in enumerate(s[1:]):
            self.write(("idx", a[1], I(k)), x)
        return I(len(s) - 1)

    def h_H5Sget_simple_extent_npoints(self, e, a):
        s = self.rv(a[0])
        if s[0] == "h5space" and len(s) == 2:
            return s[1]
        raise Undecided("shape")

    def ctype(self, t):
        t = self.rv(t)
        if t[0] == "glob":
            return CTYPE.get(t[1])
        return None

    def buffer(self, x):
        """(object, its class or None, element type) of a buffer argument"""
        while x["k"] in ("cast", "other") and (x.get("e") or x.get("a")):
            if x["k"] == "cast" and "void" not in x.get("t", "") and "*" not in x.get("t", ""):
                break
            x = x["e"] if x["k"] == "cast" else x["a"][0]
        el = canon(x.get("t", ""))
        o = self.ev(x)
        while o[0] == "idx" and all(i == I(0) for i in o[2:]) and not (o in self.local):
            o = o[1]
        if o[0] == "idx" and o in self.rows:
            raise Undecided("part of a matrix")
        return o, self.cls.get(o), el

    def h_write(self, e, a, x, what):
        en = self.entry(a[0])
        o, cls, el = self.buffer(x)
        mt, ft = self.ctype(a[1]), self.ctype(en["type"])
        key = self.rv(a[0])[1]
        if el in HOLDS and mt and mt != el and not (el == "bool" and mt == "unsigned char"):
            self.say("type", "%s: elements of type %s are written as %s" % (self.kname(key), el, mt))
        elif mt in HOLDS and ft and ft not in HOLDS[mt]:
            self.say("type", "%s: a file type %s does not hold every value of type %s" % (self.kname(key), ft, mt))
        if cls in SHAPES:
            sh = self.shape(o, cls)
            if en["dims"] and sorted(map(repr, sh)) != sorted(map(repr, en["dims"])):
                if self.offset(sh, en["dims"]) or len(sh) == len(en["dims"]) and all(x[0] == "dim" for x in sh + en["dims"]):
                    self.say("shape", "%s is written with shape [%s] but the object has [%s]" % (
                        self.kname(key), ", ".join(show(x) for x in en["dims"]), ", ".join(show(x) for x in sh)))
                else:
                    raise Undecided("shape written")
        n = self.new("ent", "entry")
        self.local.add(n)
        self.stash(n, o)
        if cls in SHAPES and n not in self.size:
            sh = self.shape(o, cls)
            self.size[n] = sh[0] if len(sh) == 1 else ("pair",) + sh
        en["ent"], en["cls"], en["el"] = n, cls, el
        return I(0)

    def offset(self, x, y):
        """Shapes that differ by a constant in one extent."""
        if len(x) != len(y):
            return False
        d = [self.arith("-", a, b) if b[0] == "int" else self.diff(a, b) for a, b in zip(x, y)]
        return any(z is not None and z[0] == "int" and z[1] for z in d)

    def diff(self, a, b):
        ka, kb = 0, 0
        if a[0] == "+" and a[2][0] == "int":
            a, ka = a[1], a[2][1]
        if b[0] == "+" and b[2][0] == "int":
            b, kb = b[1], b[2][1]
        return I(ka - kb) if a == b else None

    def h_H5Dwrite(self, e, a):
        return self.h_write(e, a, e["a"][5], "obj")

    def h_H5Awrite(self, e, a):
        return self.h_write(e, a, e["a"][2], "att")

    def h_read(self, e, a, x):
        en = self.entry(a[0])
        key = self.rv(a[0])[1]
        if "type" not in en:
            raise Undecided("entry written otherwise")
        o, cls, el = self.buffer(x)
        mt, ft = self.ctype(a[1]), self.ctype(en["type"])
        if el in HOLDS and mt and mt != el and not (el == "bool" and mt == "unsigned char"):
            self.say("type", "%s: elements of type %s are read as %s" % (self.kname(key), el, mt))
        elif (mt is None) != (ft is None) and (mt in HOLDS or ft in HOLDS):
            self.say("type", "%s: written as %s, read as %s" % (self.kname(key), ft, mt))
        if en["ent"] is None:
            if "type" not in en:
                raise Undecided("entry written otherwise")
            self.say("unwritten", "%s is read but its content is never written" % self.kname(key))
            raise Abort("unwritten")
        if en.get("el") in HOLDS and el in HOLDS and el != en["el"] and el not in HOLDS[en["el"]]:
            self.say("type", "%s: saved from %s, loaded into %s" % (self.kname(key), en["el"], el))
        if cls in SHAPES and en.get("cls") == cls:
            x, y = self.shape(o, cls), self.shape(en["ent"], cls)
            if x != y:
                if sorted(map(repr, x)) == sorted(map(repr, y)) or self.offset(x, y):
                    self.say("shape", "%s is loaded into shape [%s] but was saved from [%s]" % (
                        self.kname(key), ", ".join(map(show, x)), ", ".join(map(show, y))))
                else:
                    raise Undecided("shape loaded")
        elif cls in SHAPES and en.get("cls") in SHAPES and len(SHAPES[cls]) != len(SHAPES[en["cls"]]):
            raise Undecided("shape loaded")
        self.copy_to(o, en["ent"])
        return I(0)

    def h_H5Dread(self, e, a):
        return self.h_read(e, a, e["a"][5])

    def h_H5Aread(self, e, a):
        return self.h_read(e, a, e["a"][2])

    def h_H5open(self, e, a):
        return I(0)


# ------------------------------------------------------------ pairs
def pairs(P):
    """[(saver, loader, description)]"""
    out = []
    funcs = [f for f in P.funcs if f.get("body")]
    byname = {}
    for f in funcs:
        byname.setdefault(f["name"], []).append(f)
    for f in funcs:
        b = base(f["name"])
        pre = next((p for p in OPP if b.startswith(p)), None)
        if pre is None:
            continue
        stem = b[len(pre):]
        ns = f["name"][:len(f["name"]) - len(f["name"].split("::")[-1])]
        par = [canon(p["t"]) for p in f["params"]]
        if not f.get("cls"):
            if not f["name"].startswith("hdf5_utils::"):
                continue
            for g in byname.get(ns + OPP[pre] + stem, []):
                gp = [canon(p["t"]) for p in g["params"]]
                if gp == par:
                    out.append((f, g, dict(stem=stem, ctype=par[-1], mid=len(par) - 3, ret=False, free=True)))
                elif g["ret"].rstrip().endswith("*") and canon(g["ret"]) == par[-1] and gp[:2] == par[:2] and len(par) == 3:
                    out.append((f, g, dict(stem=stem, ctype=par[-1], mid=0, ret=True, free=True)))
        else:
            for g in byname.get(ns + OPP[pre] + stem, []):
                gp = [canon(p["t"]) for p in g["params"]]
                if gp == par:
                    out.append((f, g, dict(stem=stem, ctype=f["cls"], mid=0, ret=False, free=False)))
    for w, l in EXTRA:
        ws, ls = byname.get(w, []), byname.get(l, [])
        if len(ws) == 1 and len(ls) == 1:
            out.append((ws[0], ls[0], dict(stem=base(w), ctype=ws[0].get("cls"), mid=0, ret=False, free=False, extra=True)))
    return out


EXTRA = [("ComponentTopologyHandler::WritePortDataToFile", "ComponentTopologyHandler::ReadPortDatasFromFile"),
         ("ROMHandlerBase::SaveOperator", "ROMHandlerBase::LoadOperatorFromFile")]


def touches(f, P, depth=0, seen=None):
    """Does it reach the file library?"""
    seen = seen if seen is not None else set()
    if id(f) in seen or depth > 6:
        return False
    seen.add(id(f))
    for s in ir.stmts(f["body"]):
        for e in ir.stmt_exprs(s):
            for x in ir.walk(e) if e is not None else ():
                if x["k"] in ("call", "mcall"):
                    c = x.get("callee") or ""
                    if c.startswith("H5"):
                        return True
                    g = P.callee(x)
                    if g is not None and g.get("body") and touches(g, P, depth + 1, seen):
                        return True
    return False


class Result:
    pass


def explore(P, w, l, info, steps, limit=300):
    out, todo = [], [[]]
    while todo:
        sc = todo.pop()
        k = File(P, sc, steps=steps)
        r = Result()
        r.w, r.ret, r.abort, r.wabort, r.mark, r.und = k, None, None, None, None, None
        names = {}
        def bound(f, n0=None):
            b = []
            for i, q in enumerate(f["params"]):
                t = canon(q["t"])
                nm = None
                if info["free"] and i < 2:
                    nm = "#%d" % i
                elif info["free"] and not info["ret"] and i == len(f["params"]) - 1:
                    nm = "#value"
                elif info["free"] and info["ret"] and f is w and i == len(f["params"]) - 1:
                    nm = "#value"
                elif info["free"] and not info["ret"] or not info.get("extra") and not info["free"]:
                    nm = "#%d" % i
                else:
                    nm = q["n"]
                v = ("par", nm)
                b.append(("ref", v) if q["t"].rstrip().endswith("&") else ("val", v))
                if nm == "#value" or f is w:
                    names[t] = v
            return b
        this = ("this",)
        k.types[this] = w.get("cls")
        try:
            try:
                k.run(w, this if w.get("cls") else None, bound(w))
            except Abort as a:
                r.wabort = str(a) or "abort"
            if not r.wabort:
                r.mark = len(k.used)
                r.emark = len(k.events)
                r.bmark = len(k.bad)
                for a in list(k.store):
                    if not k.is_local(a):
                        del k.store[a]
                for a in [a for a in k.size if not k.is_local(a)]:
                    del k.size[a]
                k.reading = True
                try:
                    r.ret = k.run(l, this if l.get("cls") else None, bound(l))
                except Abort as a:
                    r.abort = str(a) or "abort"
        except Jump:
            r.und = "jump"
        except Undecided as u:
            r.und = str(u)
        except RecursionError:
            r.und = "recursion"
        r.names = names
        out.append(r)
        for i in range(len(k.used) - 1, len(sc) - 1, -1):
            if k.used[i][1] and i not in k.forced:
                todo.append([v for t, v in k.used[:i]] + [False])
        if len(out) + len(todo) > limit:
            raise Undecided("too many paths")
    return out


def norm(t, names):
    """Objects rebuilt from all their parts are the object; look-up of a name's number undoes the table of names."""
    if not isinstance(t, tuple):
        return t
    t = tuple(norm(x, names) for x in t)
    if t and t[0] == "obj" and t[1] == "mfem::SparseMatrix" and len(t) >= 7:
        i, j, d, h, w = t[2:7]
        if i[0] == "fld" and i[2] == "I":
            x = i[1]
            if j == ("fld", x, "J") and d == ("fld", x, "data") and h == ("dim", x, 0) and w == ("dim", x, 1):
                return x
    if t and t[0] == "idx" and len(t) == 3 and t[1][0] == "fld" and t[2][0] == "idx" and len(t[2]) == 3 and t[2][1][0] == "fld":
        if t[1][2] == "comp_name2idx" and t[2][1][2] == "comp_names":
            return t[2][2]
    return t


def address(t):
    return t[0] in ("fld", "idx", "par", "glob") or t[0] == "call" and t[1] and t[1].endswith("::GetBlock")


def leafs(k, a):
    """What an entry holds: [term saved]"""
    out = []
    n = a
    v = k.store.get(n)
    if v is not None:
        out.append(v)
    for c in k.kidsof.get(n, ()):
        if c[1] == n:
            x = k.store.get(c)
            if x is not None:
                out.append(x)
            else:
                out += leafs(k, c)
    return out


def local_term(k, t):
    return any(x in k.local for x in subterms(t))


def empty(k, leaf, used):
    """The path knows that there is nothing in it."""
    for t, v in used:
        if t == leaf and not v:
            return True
        if t[0] == "==" and v and (t[1] == I(0) or t[2] == I(0)):
            x = t[2] if t[1] == I(0) else t[1]
            if has(leaf, x) and x[0] == "dim" or x[0] == "dim" and has(leaf, x[1]) or \
                    x[0] == "call" and (x[1] or "").endswith("NumNonZeroElems") and x[2] == leaf or x == ("idx", ("fld", leaf, "I"), ("dim", leaf, 0)):
                return True
        if t[0] == "==" and v and NULLT in t[1:] and leaf in t[1:]:
            return True
        if t[0] == "<" and not v and t[1] == I(0):
            x = t[2]
            if x[0] == "dim" and has(leaf, x[1]) or x[0] == "call" and (x[1] or "").endswith("NumNonZeroElems") and x[2] == leaf:
                return True
        if t[0] == "<" and v and t[2] == I(1):
            x = t[1]
            if x[0] == "dim" and has(leaf, x[1]) or x[0] == "call" and (x[1] or "").endswith("NumNonZeroElems") and x[2] == leaf:
                return True
        if v and t[0] == "call" and (t[1] or "").endswith("IsZeroBlock") and leaf[0] == "call" and leaf[2:] == t[2:]:
            return True
    return False


def restores(r, info):
    """[(address, value)] the loader leaves outside, with objects it creates named after what they stand for"""
    k = r.w
    ren = {}
    evs = []
    if info["ret"] and r.ret is not None:
        v = k.content(r.ret) if r.ret in k.store else r.ret
        if r.ret[0] == "new":
            o = k.store.get(r.ret)
            if o is not None and norm(o, {}) != o:
                evs.append((("par", "#value"), norm(o, {}), None))
            elif o is not None and o[0] == "obj" and o[1] == "mfem::SparseMatrix":
                evs.append((("par", "#value"), o, None))
            else:
                ren[r.ret] = ("par", "#value")
        else:
            evs.append((("par", "#value"), r.ret, None))
    for n, c in k.newcls.items():
        t = canon(c)
        v = r.names.get(t)
        if v is not None and n not in ren and not info["ret"]:
            ren[n] = v
    for ev in k.events[r.emark:]:
        if ev.kind == "write":
            evs.append((ev.recv, ev.args[0] if ev.args else None, ev))
        elif ev.kind == "call" and (ev.name or "").endswith("::SetBlock") and len(ev.args) >= 3:
            m = k.store.get(ev.args[2]) if ev.args[2][0] == "new" else ev.args[2]
            evs.append((("call", ev.name.replace("SetBlock", "GetBlock"), rep(ev.addr, ren) if hasattr(ev, "addr") else ev.recv_addr)
                        + tuple(ev.args[:2]), m, ev))
    # fields of new objects that were put somewhere
    for i, (a, v, ev) in enumerate(evs):
        x = k.store.get(v) if isinstance(v, tuple) and v[0] == "new" else None
        if x is not None and x[0] != "obj":
            evs[i] = (a, x, ev)
    where = {n: x for n, x in ren.items()}
    for a, v, ev in evs:
        if isinstance(v, tuple) and v[0] == "new" and v not in where:
            where[v] = a
    out = list(evs)
    for a, v in list(k.store.items()):
        x = a
        while x[0] in ("fld", "idx"):
            x = x[1]
        if x in where and a != x:
            out.append((a, v, None))
    res = []
    for a, v, ev in out:
        if v is None:
            continue
        for _ in range(3):
            a, v = rep(a, where), v if isinstance(v, tuple) and v in where else rep(v, where)
        if v[0] == "rec":
            for n, y in v[2:]:
                res.append((norm(("fld", a, n), r.names), norm(y, r.names), ev))
            continue
        res.append((norm(a, r.names), norm(v, r.names), ev))
    return res


def check(P, R, w, l, info, steps):
    name = "%s/%s" % (w["name"], base(l["name"]))
    key = "%s(%s)" % (w["name"], info["ctype"] or "")
    try:
        rs = explore(P, w, l, info, steps)
    except Undecided as u:
        R.count("pairs_undecided")
        R.note("undecided: %s: %s" % (name, u))
        return
    bads = {}
    und = [r for r in rs if r.und]
    groups = {}
    saved, dropped = {}, []
    for r in rs:
        if r.und and r.mark is None or r.wabort:
            continue
        g = tuple(r.w.used[:r.mark])
        groups.setdefault(g, []).append(r)
    R.count("pair_paths", len(rs))

    def where(f, line):
        return "%s:%s" % (f.get("file", "?"), line)

    def bad(code, f, line, msg):
        bads.setdefault(code, (f, line, msg))
    for g, grp in groups.items():
        full = [r for r in grp if not r.und]
        if not any("group" not in en for en in grp[0].w.entries.values()) and not grp[0].w.files and \
                not (w["params"] and canon(w["params"][0]["t"]) == "long"):
            continue        # nothing saved at all
        for r in full:
            for code, f, line, msg in r.w.bad:
                bad(code, f, line, msg)
        r0 = grp[0]
        ents = {kk: en for kk, en in r0.w.entries.items()}
        R.count("entries_saved", len(ents))
        done = [r for r in full if not r.abort]
        if any(r.und for r in grp):
            und += [r for r in grp if r.und][:1]
            continue
        if not done and full and not bads:
            r = full[0]
            bad("rejects", l, r.w.line, "always stops on what the saver writes (%s)" % r.abort)
            continue
        for kk, en in ents.items():
            if not any(kk in r.w.readkeys for r in done) and done:
                bad("unread", en["f"], en["line"], "saves %s, which is never loaded" % r0.w.kname(kk))
        # what goes back
        all_res = []
        for r in done:
            res = restores(r, info)
            all_res.append((r, res))
        lv = []
        for kk, en in ents.items():
            if en.get("ent") is None:
                continue
            for t in leafs(r0.w, en["ent"]):
                t = norm(t, r0.names)
                if address(t) and not local_term(r0.w, t):
                    lv.append((t, kk, en))
                    saved.setdefault(t, (kk, en))
        leafset = {t for t, kk, en in lv}
        for r, res in all_res:
            for a, v, ev in res:
                if a == v or not isinstance(v, tuple):
                    continue
                known = not any(x[0] in ("any", "lost", "upd") for x in subterms(v)) and not (v in r.w.local) and not local_term(r.w, v)
                line = ev.line if ev is not None else l.get("line", 0)
                f = ev.f if ev is not None else l
                ga = [x for x in subterms(a) if x[0] == "gen"]
                if a in leafset and known and not v[0] == "new":
                    bad("field", f, line, "%s is loaded from what was saved of %s" % (show(a), show(v)))
                elif known and address(a) and not is_map(a, v) and (v in leafset or mine(a, r0) and mine(v, r0)):
                    # same array, shifted or shorter range
                    bad("field", f, line, "%s is loaded from what was saved of %s" % (show(a), show(v)))
        for t, kk, en in lv:
            config = any(x == ("this",) for x in subterms(t)) and kk[0] == "att" or t[0] == "par" and t[1] != "#value" or \
                any(x == ("fld", ("this",), "comp_names") for x in subterms(t))
            if config or not done:
                continue
            if empty(r0.w, t, g):
                continue
            ok = False
            other = []
            for r, res in all_res:
                for a, v, ev in res:
                    if a == v and within(t, a) or is_map(a, t) or is_map(a, v) and has(a, t) or v == t and is_map(a, v):
                        ok = True
                    elif v != a and a[0] == t[0] and same_shape(a, t):
                        other.append((a, v))
                    elif a == v and same_shape(a, t) and a != t:
                        other.append((a, v))
            if not ok and any(has(r.w.content(x), t) for r, res in all_res for x in ()):
                ok = True
            if not ok:
                d = [covers(r0.w, a, t) for a, v in other]
                if other and not any(x for x in d):
                    und.append(r0)
                    R.note("undecided: %s: %s restored in another way" % (name, show(t)))
                elif all(empty(r.w, t, r.w.used) for r, res in all_res):
                    pass
                else:
                    bad("lost", en["f"], en["line"], "%s is saved as %s but %s" % (
                        show(t), r0.w.kname(kk), "only part of it is loaded back" if other else "never put back"))
    # the same leaf saved on one path and dropped on another
    for g, grp in groups.items():
        r0 = grp[0]
        have = {norm(t, r0.names) for en in r0.w.entries.values() if en.get("ent") is not None for t in leafs(r0.w, en["ent"])}
        for t, (kk, en) in saved.items():
            if t in have or empty(r0.w, t, g):
                continue
            sp = [g2 for g2, grp2 in groups.items() if any(t in {norm(x, grp2[0].names) for e2 in grp2[0].w.entries.values() if e2.get("ent") is not None
                                                                for x in leafs(grp2[0].w, e2["ent"])} for _ in (0,))]
            dif = [(c, v) for c, v in g if any((c, not v) in g2 for g2 in sp)]
            own = [x for x in subterms(t) if x[0] == "gen"] + [t]
            if not r0.w.entries or not dif or any(unknown(c) or not any(has(c, x) for x in own) for c, v in dif):
                continue
            bad("dropped", en["f"], en["line"], "%s is not saved when [%s]" % (
                show(t), ", ".join(("" if v else "not ") + show(c) for c, v in dif)))
    R.count("pairs")
    for code, (f, line, msg) in sorted(bads.items()):
        R.violation("%s:%s" % (key, code), where(f, line), "%s: %s" % (name, msg), w["name"])
    if und and not bads:
        R.count("pairs_undecided")
        R.note("undecided: %s: %s" % (name, next((r.und for r in und if r.und), "restoring")))
    elif not bads:
        R.sample("%s [%s]: %d paths agree" % (name, info["ctype"], len(rs)))


def unknown(c):
    """Not a plain property of what is saved."""
    return any(x[0] in ("any", "var") for x in subterms(c))


def mine(a, r):
    """Part of the object that was saved."""
    while a[0] in ("fld", "idx"):
        a = a[1]
    return a[0] == "par" and (a in r.names.values()) and a[1] not in ("#0", "#1")


def within(t, a):
    while t != a and t[0] in ("fld", "idx"):
        t = t[1]
    return t == a


def is_map(a, v):
    """a[key] := value of one entry of the map a itself"""
    return a[0] == "idx" and len(a) == 3 and a[2][0] == "fld" and a[2][2] == "first" and v == ("fld", a[2][1], "second") and \
        a[2][1][0] == "idx" and a[2][1][1] == a[1]


def same_shape(a, t):
    """Equal but for loop indices."""
    def blur(x):
        if not isinstance(x, tuple):
            return x
        if x and x[0] in ("gen", "any"):
            return ("#",)
        return tuple(blur(y) for y in x)
    return blur(a) == blur(t)


def covers(k, a, t):
    """Provably fewer (or other) elements: the ranges differ by a constant."""
    ga = [x for x in subterms(a) if x[0] == "gen"]
    gt = [x for x in subterms(t) if x[0] == "gen"]
    if len(ga) != 1 or len(gt) != 1:
        return False
    lo, hi = k.diff(ga[0][1], gt[0][1]), k.diff(ga[0][2], gt[0][2])
    lo = I(ga[0][1][1] - gt[0][1][1]) if ga[0][1][0] == gt[0][1][0] == "int" else lo
    return lo is not None and hi is not None and (lo[1] > 0 or hi[1] < 0)


def run(P, R):
    R.rule = ("every saver is walked on a symbolic object into a symbolic file and its loader on that file: each entry the loader opens must "
              "be there with the same kind, type and shape; what it stores in an object must be what was taken from the same field and index; "
              "every entry must be read and put back; nothing that is not known to be empty may be left out")
    ps = [p for p in pairs(P) if touches(p[0], P) and touches(p[1], P)]
    steps = {}
    for w, l, info in ps:
        if info["free"] or info["stem"] == "" and len(w["params"]) >= 2 and canon(w["params"][0]["t"]) == "long":
            steps[id(w)] = (True, info)
            steps[id(l)] = (False, info)
    for w, l, info in ps:
        st = {k: v for k, v in steps.items() if k not in (id(w), id(l))}
        try:
            check(P, R, w, l, info, st)
        except (KeyError, IndexError, TypeError, AttributeError, ValueError) as x:
            R.count("pairs_undecided")
            R.note("undecided: %s: %s %s" % (w["name"], type(x).__name__, x))


MIN = {"pairs": 14}

if __name__ == "__main__":
    import sys
    sys.exit(main("C03", run, MIN))
