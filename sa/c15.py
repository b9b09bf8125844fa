"""C15: every process takes part in every collective operation.

Three facts are derived for each function: which values depend on the process (its rank, what is assigned under a
test of such a value, what one process alone has read), which call sites are collective (MPI collectives and the
functions that reach one), and, for each class of ranks, the sequences of collectives its paths can issue. What a
process issues may depend only on values all processes share."""
import os, re
from .ir import *
from .flow import canon_cond, names_in, changed_names
from .report import main

# buffers: s(end) r(eceive) b(oth); c count, v per-rank counts, t type, o op, R root, C communicator, p own count
SPEC = {
    "MPI_Bcast": "bctRC", "MPI_Reduce": "srctoRC", "MPI_Allreduce": "srctoC", "MPI_Barrier": "C",
    "MPI_Allgather": "sctrctC", "MPI_Allgatherv": "sptrvvtC", "MPI_Gather": "sctrctRC", "MPI_Gatherv": "sptrvvtRC",
    "MPI_Scatter": "sctrctRC", "MPI_Scatterv": "svvtrptRC", "MPI_Alltoall": "sctrctC", "MPI_Alltoallv": "spptrpptC",
    "MPI_Scan": "srctoC", "MPI_Exscan": "srctoC", "MPI_Reduce_scatter": "srvtoC", "MPI_Reduce_scatter_block": "srctoC",
    "MPI_Comm_split": "p.C", "MPI_Comm_dup": "C", "MPI_Init": "", "MPI_Finalize": "",
}
SPEC["MPI_Comm_split"] = "Cppr"
SPEC["MPI_Comm_dup"] = "Cr"
ROOTED_SEND = {"MPI_Reduce", "MPI_Gather", "MPI_Gatherv"}
CTYPE = {"ompi_mpi_int": ("int",), "ompi_mpi_double": ("double",), "ompi_mpi_char": ("char",),
         "ompi_mpi_float": ("float",), "ompi_mpi_long": ("long",), "ompi_mpi_unsigned": ("unsigned int",),
         "ompi_mpi_cxx_bool": ("bool",), "ompi_mpi_unsigned_char": ("unsigned char",),
         "ompi_mpi_signed_char": ("signed char", "char"), "ompi_mpi_long_long_int": ("long long",),
         "ompi_mpi_unsigned_long": ("unsigned long",), "ompi_mpi_c_bool": ("bool",), "ompi_mpi_byte": None}
NRANKS = 3


def comm_of(e):
    s = strip(e)
    return show(s).lstrip("&") if s is not None else "?"


def is_coll(e, P=None):
    """A call that is itself a collective."""
    c = e.get("callee") or ""
    if e["k"] == "call" and c in SPEC:
        return not any("comm_self" in show(a) for a in e["a"] if a is not None)
    if e["k"] in ("call", "mcall", "ctor") and "ompi_communicator_t *" in e.get("pt", []):
        if re.match(r"CAROM::(split_dimension|get_global_offsets)$", c) or c == "mfem::InnerProduct":
            return True
    return False


def root_id(e):
    """The variable or field a place or pointer expression belongs to."""
    e = strip(e)
    if e is None:
        return None
    k = e["k"]
    if k == "ref":
        return None if e["n"].startswith("ompi_") else e.get("id")
    if k == "mem":
        return e.get("id") if e.get("dk") == "field" else None
    if k == "sub":
        return root_id(e["x"])
    if k == "un" and e["op"] in ("&", "*", "++", "--"):
        return root_id(e["e"])
    if k == "opcall" and e["a"]:
        return root_id(e["a"][0])
    if k == "mcall":
        return root_id(e.get("obj"))
    return None


CONT = re.compile(r"^(const )?(std::(basic_string|vector|array|map|set|list|deque|basic_stringstream|basic_ifstream|basic_istringstream|"
                  r"basic_ostringstream|unordered_map|unordered_set)|mfem::(Array|Array2D|Vector|DenseMatrix|DenseTensor|Table))\b")


def container(t):
    return bool(CONT.match(t)) and not re.search(r"\*>?\s*[&*]?$", t.replace(" ", ""))


def scalar(t):
    return re.match(r"^(bool|char|short|int|long|unsigned|float|double|size_t|hid_t)[\w ]*\s*[&*]?$", t) is not None


class Prog:
    def __init__(s, P):
        s.P = P
        s.fs = [f for f in P.funcs if f.get("body") and not f.get("dependent")]
        s.over = {}
        for g in s.fs:
            for o in g.get("overrides") or ():
                s.over.setdefault(o, []).append(g)
        s.coll = {}
        s.find_coll()
        s.fields = set()     # ids of fields that differ between processes
        s.ret = set()        # functions with such a result
        s.par = {}           # function key -> indices of such parameters
        s.out = {}           # function key -> parameters it leaves that way
        s.ranks = {}         # id -> communicator: direct holders of a rank
        s.one = {}

    def key(s, f):
        return (f["id"], f["type"])

    def targets(s, e):
        f = s.P.callee(e)
        if f is None:
            return []
        r = [f] if f.get("body") else []
        todo, seen = ["%s %s" % (f["name"], f["type"])], set()
        while todo and e["k"] == "mcall" and f.get("virtual"):
            n = todo.pop()
            for g in s.over.get(n, ()):
                if s.key(g) not in seen:
                    seen.add(s.key(g))
                    r.append(g)
                    todo.append("%s %s" % (g["name"], g["type"]))
        return r

    def calls(s, f):
        if "_c15calls" not in f:
            f["_c15calls"] = [e for e in body_exprs(f) if e["k"] in ("call", "mcall", "opcall", "ctor", "new")]
        return f["_c15calls"]

    def find_coll(s):
        ks = {}
        for f in s.fs:
            if any(is_coll(e) for e in s.calls(f)):
                s.coll[s.key(f)] = f
        ch = True
        while ch:
            ch = False
            for f in s.fs:
                if s.key(f) in s.coll:
                    continue
                for e in s.calls(f):
                    if any(s.key(g) in s.coll for g in s.targets(e)):
                        s.coll[s.key(f)] = f
                        ch = True
                        break

    def site(s, e):
        """Is this expression a collective call site?"""
        return is_coll(e) or (e["k"] in ("call", "mcall", "opcall", "ctor") and any(s.key(g) in s.coll for g in s.targets(e)))


def decls(f):
    d = {}
    for st in stmts(f["body"]):
        for v in st.get("v", []) if st["k"] == "decl" else ():
            d[v["id"]] = v
    return d


class Fn:
    """Taint of one function."""

    def __init__(s, f, G):
        s.f, s.G = f, G
        s.cfg = cfg_of(f, G.P)
        s._cd = None
        s.ctl = set()
        s.params = {p["id"]: i for i, p in enumerate(f["params"])}
        s.locals = decls(f)
        s.fieldw = set()

    @property
    def cd(s):
        if s._cd is None:
            s.pdom_init()
        return s._cd

    # post-dominance over the part of the graph that reaches the exit
    def pdom_init(s):
        c = s.cfg
        pred = {n.id: [] for n in c.nodes}
        for n in c.nodes:
            for m, _ in n.succ:
                pred[m.id].append(n)
        live, todo = {c.exit.id}, [c.exit]
        while todo:
            n = todo.pop()
            for p in pred[n.id]:
                if p.id not in live:
                    live.add(p.id)
                    todo.append(p)
        s.live = live
        s.pred = pred
        ids = [n for n in c.nodes if n.id in live]
        full = (1 << len(c.nodes)) - 1
        pd = {n.id: full for n in ids}
        pd[c.exit.id] = 1 << c.exit.id
        ch = True
        order = list(reversed(ids))
        while ch:
            ch = False
            for n in order:
                if n is c.exit:
                    continue
                v = full
                for m, _ in n.succ:
                    if m.id in live:
                        v &= pd[m.id]
                v |= 1 << n.id
                if v != pd[n.id]:
                    pd[n.id] = v
                    ch = True
        s.pd = pd
        # direct control dependence: node -> branches
        s._cd = {n.id: set() for n in ids}
        for b in ids:
            ss = [m for m, _ in b.succ if m.id in live]
            if len(ss) < 2:
                continue
            for m in ss:
                for n in ids:
                    if pd[m.id] >> n.id & 1 and (n.id == b.id or not pd[b.id] >> n.id & 1):
                        s._cd[n.id].add(b.id)

    def ctl_closure(s, tainted):
        """Nodes whose execution depends on a tainted branch."""
        r = set()
        ch = bool(tainted)
        while ch:
            ch = False
            for n, bs in s.cd.items():
                if n not in r and any(b in tainted or b in r for b in bs):
                    r.add(n)
                    ch = True
        return r

    # -- taint of expressions
    def t(s, e, st):
        if e is None:
            return False
        k = e["k"]
        if k in ("ref", "mem"):
            if e.get("id") in st:
                return True
            return k == "mem" and e.get("b") is not None and e["b"]["k"] != "this" and s.t(e["b"], st)
        if k in ("call", "mcall", "opcall", "ctor"):
            c = e.get("callee") or ""
            if c.startswith("MPI_"):
                return False
            if c == "CAROM::split_dimension" or c.endswith("::GetMyRank") or c.endswith("::WorldRank"):
                return True
            if c == "CAROM::get_global_offsets":
                return False
            if c == "mfem::InnerProduct" and "ompi_communicator_t *" in e.get("pt", []):
                return False
            ts = s.G.targets(e)
            if ts and any(s.G.key(g) in s.G.ret for g in ts):
                return True
        if k == "lambda":
            return False
        return any(s.t(c, st) for c in kids(e))

    def effects(s, e, st, ctl):
        """Assignments inside an expression; st is a mutable set."""
        if e is None:
            return
        k = e["k"]
        if k == "lambda":
            return
        if k == "bin" and e["op"] in ("&&", "||"):
            pass
        for c in kids(e):
            s.effects(c, st, ctl)

        def put(i, v, weak=False):
            if i is None:
                return
            if v:
                st.add(i)
            elif not weak:
                st.discard(i)
        if k == "assign":
            x = strip(e["x"])
            i = root_id(x)
            if e["y"].get("t", "").endswith("*"):    # which object, not what it holds
                s.note(i)
                return
            v = s.t(e["y"], st) or ctl
            direct = x["k"] == "ref" or (x["k"] == "mem" and x["b"]["k"] == "this")
            put(i, v, not direct or e.get("op", "=") != "=")
            s.note(i)
        elif k == "un" and e["op"] in ("++", "--"):
            put(root_id(e["e"]), ctl, True)
            s.note(root_id(e["e"]))
        elif k in ("call", "mcall", "opcall", "ctor"):
            c = e.get("callee") or ""
            a, pt = e["a"], e.get("pt", [])
            if c == "MPI_Comm_rank":
                i = root_id(a[1])
                put(i, True)
                s.note(i)
                if i:
                    s.G.ranks[i] = s.comm(a[0])
                return
            if c in SPEC:
                shared = not any("comm_self" in show(x) for x in a if x is not None)
                for kind, x in zip(SPEC[c], a):
                    if kind in "rb":
                        i = root_id(x)
                        # the result is known to all processes only if all of them receive it
                        if shared and c in ("MPI_Bcast", "MPI_Allreduce", "MPI_Allgather", "MPI_Allgatherv") and not ctl:
                            if not s.partial(x):
                                put(i, False)
                        elif i:
                            put(i, True)
                        s.note(i)
                return
            if c.startswith("MPI_"):
                return
            if c == "CAROM::get_global_offsets":
                put(root_id(a[1]), ctl)
                return
            off = 1 if k == "opcall" and len(pt) == len(a) - 1 else 0
            anyt = any(s.t(x, st) for x in a if x is not None) or ctl
            ts = s.G.targets(e)
            if k == "mcall" and not e.get("cconst") and e.get("obj") is not None:
                o = strip(e["obj"])
                i = root_id(o) if container(o.get("t", "")) and not e.get("arrow") else None
                if i is not None and not (e.get("t", "").endswith("*") or (c.rsplit("::", 1)[-1] in ("GetData", "Read", "begin", "end"))):
                    put(i, anyt, True)
                    s.note(i)
                if ctl and o["k"] == "this":
                    for g in ts:
                        for w in s.G.one.get(s.G.key(g), ()):
                            put(w, True)
            if k == "opcall" and off and a:
                op = e.get("op", "")
                if op in ("=", "+=", "-=", "*=", "/=", "<<", ">>", "++", "--"):
                    x = strip(a[0])
                    i = root_id(x) if op not in ("<<", ">>") or container(x.get("t", "")) else None
                    v = any(s.t(y, st) for y in a[1:]) or ctl
                    put(i, v, not (op == "=" and x["k"] in ("ref",)))
                    s.note(i)
            for j, x in enumerate(a):
                jj = j - off
                if x is None or not 0 <= jj < len(pt):
                    continue
                if pt[jj].endswith("&") and not pt[jj].startswith("const ") or (pt[jj].endswith("*") and not pt[jj].startswith("const ") and strip(x)["k"] == "un" and strip(x)["op"] == "&"):
                    i = root_id(x)
                    v = ctl
                    if not (container(pt[jj]) or scalar(pt[jj])):
                        continue
                    if ts:
                        v = v or any(jj in s.G.out.get(s.G.key(g), ()) for g in ts)
                    else:
                        v = v or any(s.t(y, st) for m, y in enumerate(a) if m != j and y is not None)
                    put(i, v, True)
                    s.note(i)

    def partial(s, x):
        """A receive buffer that is one element of something larger (v[k]); the first element stands for the whole."""
        x = strip(x)
        if x["k"] == "un" and x["op"] == "&":
            y = strip(x["e"])
            if y["k"] == "sub":
                z = strip(y["y"])
                return not (z["k"] == "int" and z["v"] == 0)
            if y["k"] == "opcall":
                return not all(strip(z)["k"] == "int" and strip(z)["v"] == 0 for z in y["a"][1:])
        return False

    def note(s, i):
        if i is not None and i not in s.params and i not in s.locals:
            s.fieldw.add(i)

    def comm(s, e):
        """Communicator text; a constructor parameter stored in a field counts as the field."""
        x = strip(e)
        if x is not None and x["k"] == "ref":
            for i in s.f.get("inits", []):
                if i.get("field") and i.get("e") is not None and strip(i["e"]) is not None and strip(i["e"]).get("id") == x.get("id"):
                    return i["field"]
        return comm_of(e)

    def transfer(s, n, st):
        ctl = n.id in s.ctl
        st = set(st)
        if n.e is not None:
            s.effects(n.e, st, ctl)
        if n.var is not None:
            v = n.var
            if v.get("init") is not None and not v["t"].endswith("*") and (s.t(v["init"], st) or ctl):
                st.add(v["id"])
            else:
                st.discard(v["id"])
        return frozenset(st)

    def run(s):
        G = s.G
        st0 = set(G.fields)
        for p in G.par.get(G.key(s.f), ()):
            if p < len(s.f["params"]):
                st0.add(s.f["params"][p]["id"])
        for i in s.f.get("inits", []):
            if i.get("field") and i.get("e") is not None and i.get("id"):
                s.effects(i["e"], st0, False)
                s.fieldw.add(i["id"])
                if s.t(i["e"], st0):
                    st0.add(i["id"])
                else:
                    st0.discard(i["id"])
        st0 = frozenset(st0)
        while True:
            ins = {s.cfg.entry.id: st0}
            work = [s.cfg.entry]
            while work:
                n = work.pop()
                if n is s.cfg.exit:
                    continue
                o = s.transfer(n, ins[n.id])
                for m, _ in n.succ:
                    old = ins.get(m.id)
                    new = o if old is None else old | o
                    if new != old:
                        ins[m.id] = new
                        work.append(m)
            s.ins = ins
            tb = set()
            for n in s.cfg.nodes:
                if n.kind == "branch" and n.id in ins and n.e is not None:
                    o = set(ins[n.id])
                    s.effects(n.e, o, n.id in s.ctl)
                    if s.t(n.e, o) or s.t(n.e, ins[n.id]):
                        tb.add(n.id)
            s.tb = tb
            ctl = s.ctl_closure(tb)
            if ctl <= s.ctl:
                break
            s.ctl |= ctl
        return s

    def exit_state(s):
        return s.ins.get(s.cfg.exit.id, frozenset())


def fixpoint(G):
    fns = {}
    work = list(G.fs)
    # which fields a method writes (through this), transitively
    for f in G.fs:
        w = set()
        for e in body_exprs(f):
            if e["k"] == "assign":
                x = strip(e["x"])
                i = root_id(x)
                if i and "@" in i and (x["k"] == "mem"):
                    w.add(i)
        G.one[G.key(f)] = w
    for rnd in range(12):
        before = (len(G.fields), len(G.ret), sum(map(len, G.par.values())), sum(map(len, G.out.values())), len(G.ranks))
        for f in G.fs:
            k = G.key(f)
            if not relevant(f, G, fns.get(k)):
                continue
            F = Fn(f, G) if k not in fns else fns[k]
            F.ctl = set()
            F.run()
            fns[k] = F
            ex = F.exit_state()
            new = {i for i in F.fieldw if i in ex} - G.fields
            if new and os.environ.get("SA_DBG"):
                print(rnd, f["name"], sorted(new)[:6])
            G.fields |= new
            for i, p in enumerate(f["params"]):
                if p["id"] in ex and (p["t"].endswith("&") or p["t"].endswith("*")) and not p["t"].startswith("const "):
                    if p["id"] not in {f["params"][j]["id"] for j in G.par.get(k, ()) if j < len(f["params"])}:
                        G.out.setdefault(k, set()).add(i)
            for n in F.cfg.nodes:
                if n.id not in F.ins:
                    continue
                if n.kind == "return" and n.e is not None and (F.t(n.e, F.ins[n.id]) or n.id in F.ctl):
                    G.ret.add(k)
                es = [n.e] if n.e is not None else []
                for r in es:
                    for e in walk(r):
                        if e["k"] in ("call", "mcall", "ctor"):
                            for g in G.targets(e):
                                for j, a in enumerate(e["a"]):
                                    if a is not None and rank_value(F, a):
                                        G.par.setdefault(G.key(g), set()).add(j)
        after = (len(G.fields), len(G.ret), sum(map(len, G.par.values())), sum(map(len, G.out.values())), len(G.ranks))
        if before == after:
            break
    for k, f in G.coll.items():
        if k not in fns:
            fns[k] = Fn(f, G).run()
    return fns


def rank_value(F, e):
    """Is the value a function of the rank alone?"""
    for cm in set(F.G.ranks.values()):
        vs = [Rank(F, cm, r).ev(e) for r in range(NRANKS)]
        if None not in vs and len(set(vs)) > 1:
            return True
    return False


def relevant(f, G, F):
    """Could a new round find something else here?"""
    if "_c15ids" not in f:
        f["_c15ids"] = {e["id"] for e in body_exprs(f) if e["k"] in ("ref", "mem") and e.get("id")}
        f["_c15src"] = any(e["k"] in ("call", "mcall") and re.search(r"^MPI_|^CAROM::|GetMyRank|WorldRank", e.get("callee") or "") for e in G.calls(f))
        f["_c15tg"] = {G.key(g) for e in G.calls(f) for g in G.targets(e)}
    if f["_c15src"] or f["_c15ids"] & G.fields or G.par.get(G.key(f)):
        return True
    return any(t in G.ret or t in G.out for t in f["_c15tg"])


# ---------------------------------------------------------------- paths per rank

class Rank:
    """Evaluation of conditions for one rank of one communicator."""

    def __init__(s, F, comm, r):
        s.F, s.comm, s.r = F, comm, r
        s.d = {}
        s.asg = {}
        for e in body_exprs(F.f):
            if e["k"] == "assign" or (e["k"] == "un" and e["op"] in ("++", "--", "&")):
                i = root_id(e["x"] if e["k"] == "assign" else e["e"])
                s.asg[i] = s.asg.get(i, 0) + 1

    def ev(s, e, depth=0):
        """int/bool value or None."""
        e = strip(e)
        if e is None or depth > 8:
            return None
        k = e["k"]
        if k in ("int", "bool"):
            return int(e["v"])
        if k in ("ref", "mem"):
            i = e.get("id")
            if i in s.F.G.ranks:
                return s.r if s.F.G.ranks[i] == s.comm and s.r is not None else None
            v = s.F.locals.get(i)
            if v is not None and v.get("init") is not None and not s.asg.get(i):
                return s.ev(v["init"], depth + 1)
            return None
        if k == "un" and e["op"] in ("!", "-"):
            v = s.ev(e["e"], depth + 1)
            return None if v is None else (int(not v) if e["op"] == "!" else -v)
        if k == "cond":
            c = s.ev(e["c"], depth + 1)
            return None if c is None else s.ev(e["x"] if c else e["y"], depth + 1)
        if k == "bin":
            x, y = s.ev(e["x"], depth + 1), s.ev(e["y"], depth + 1)
            op = e["op"]
            if op == "&&":
                return 0 if x == 0 or y == 0 else (1 if x and y else None)
            if op == "||":
                return 1 if x or y else (0 if x == 0 and y == 0 else None)
            if x is None or y is None:
                return None
            try:
                return int({"==": x == y, "!=": x != y, "<": x < y, ">": x > y, "<=": x <= y, ">=": x >= y, "+": x + y,
                            "-": x - y, "*": x * y}.get(op)) if op != "%" else x % y
            except Exception:
                return None
        if k in ("call", "mcall"):
            ts = s.F.G.targets(e)
            if len(ts) == 1:
                rs = [st for st in stmts(ts[0]["body"]) if st["k"] == "return"]
                if len(rs) == 1 and len(list(stmts(ts[0]["body"]))) <= 2:
                    return s.ev(rs[0]["e"], depth + 1)
        return None


def elements(F, n, rk):
    """The collectives a node issues, in order, as (text, expression)."""
    out = []
    if n.e is None:
        return out
    for e in walk(n.e):
        if not F.G.site(e):
            continue
        # an operand the rank's own conditions skip
        if skipped(n.e, e, rk):
            continue
        c = e.get("callee") or ""
        if c in SPEC:
            txt = c + "(" + ", ".join("*" if k in "srbpv" else norm(x) for k, x in zip(SPEC[c], e["a"])) + ")"
        else:
            txt = c + "()"
        out.append((txt, e))
    return out


def norm(x):
    return re.sub(r"^&", "", show(strip(x)))


def skipped(root, target, rk):
    def find(e):
        if e is target:
            return [()]
        if e["k"] == "cond":
            for key, want in (("x", True), ("y", False)):
                r = find(e[key]) if e.get(key) is not None else None
                if r is not None:
                    return r + [(e["c"], want)]
            r = find(e["c"])
            return r
        if e["k"] == "bin" and e["op"] in ("&&", "||"):
            r = find(e["x"])
            if r is not None:
                return r
            r = find(e["y"])
            return None if r is None else r + [(e["x"], e["op"] == "&&")]
        for c in kids(e):
            r = find(c)
            if r is not None:
                return r
        return None
    for g in (find(root) or [()])[1:]:
        v = rk.ev(g[0])
        if v is not None and bool(v) != g[1]:
            return True
    return False


class TooMany(Exception):
    pass


def paths(F, rk, rel, cap=3000):
    """All (clean outcomes, sequence, nodes) of the sliced graph for one rank: branches outside `rel` are passed
    by going to what they all lead to."""
    c = F.cfg
    res = []
    byid = {n.id: n for n in c.nodes}

    def ipdom(n):
        v = F.pd[n.id] & ~(1 << n.id)
        best = None
        for m in c.nodes:
            if m.id in F.live and v >> m.id & 1:
                if bin(F.pd[m.id]).count("1") == bin(v).count("1"):
                    return m
        return best
    steps = [0]

    def go(n, used, facts, clean, seq):
        while True:
            steps[0] += 1
            if steps[0] > 200000 or len(res) > cap:
                raise TooMany()
            for x in elements(F, n, rk):
                seq = seq + (x,)
            if n is c.exit:
                res.append((clean, seq))
                return
            succ = [(m, lab) for m, lab in n.succ if m.id in F.live]
            if not succ:
                return
            if len(succ) == 1 or n.id not in rel:
                m = succ[0][0] if len(succ) == 1 else ipdom(n)
                ek = (n.id, m.id)
                if m is None or ek in used:
                    return
                used = used | {ek}
                n = m
                continue
            val = rk.ev(n.e) if n.e is not None and n.stmt != "switch" else None
            t, p = canon_cond(n.e) if n.stmt != "switch" else (None, True)
            for m, lab in succ:
                ek = (n.id, m.id, str(lab))
                if ek in used:
                    continue
                f2, c2 = facts, clean
                if lab in (True, False):
                    if val is not None:
                        if bool(val) != lab:
                            continue
                    elif t is not None:
                        loop = any(x[0] == n.id for x in used)
                        if not loop and (t, lab != p) in facts:
                            continue
                        f2 = facts | {(t, lab == p)}
                        if n.id not in F.tb:
                            c2 = clean + ((t, lab == p),)
                elif n.id not in F.tb:
                    c2 = clean + (("switch%d" % n.id, str(lab)),)
                go(m, used | {ek}, f2, c2, seq)
            return
    go(c.entry, frozenset(), frozenset(), (), ())
    return res


def compatible(a, b):
    da, db = {}, {}
    for t, v in a:
        da.setdefault(t, []).append(v)
    for t, v in b:
        db.setdefault(t, []).append(v)
    return all(da[t] == db[t] for t in da if t in db)


def null(e):
    e = strip(e)
    return e is not None and (e["k"] == "null" or (e["k"] == "int" and e["v"] == 0))


def in_place(e, rk):
    """Is the argument MPI_IN_PLACE for this rank? None: cannot tell."""
    e = strip(e)
    if e is None:
        return False
    if e["k"] == "cond":
        v = rk.ev(e["c"])
        if v is None:
            a, b = in_place(e["x"], rk), in_place(e["y"], rk)
            return a if a == b else None
        return in_place(e["x"] if v else e["y"], rk)
    if e["k"] == "ref" and e.get("id") in rk.F.locals:
        v = rk.F.locals[e["id"]]
        return in_place(v["init"], rk) if v.get("init") is not None and not rk.asg.get(e["id"]) else None
    return e["k"] == "int" and e["v"] == 1


def choose(e, rk):
    e = strip(e)
    while e is not None and e["k"] == "cond":
        v = rk.ev(e["c"])
        if v is None:
            return e
        e = strip(e["x"] if v else e["y"])
    return e


def elem_type(e):
    """Element type of a buffer argument (through casts to void*)."""
    e = strip(e)
    if e is None:
        return None
    t = e.get("t", "")
    if t.endswith("*"):
        return t[:-1].strip().replace("const ", "")
    m = re.match(r"(?:const )?([\w ]+?)\s*\[\d*\]$", t)
    return m.group(1) if m else None


def analyse(P, R):
    G = Prog(P)
    fns = fixpoint(G)
    R.count("functions_analysed", len(G.fs))
    R.count("functions_with_collectives", len(G.coll))
    R.count("rank_variables", len(G.ranks))
    for k, f in sorted(G.coll.items()):
        check(fns[k], G, R)


def check(F, G, R):
    f = F.f
    name = f["name"]
    F.cd
    nodes = [n for n in F.cfg.nodes if n.id in F.live and n.id in F.ins and n.e is not None]
    sites = [(n, e) for n in nodes for e in walk(n.e) if G.site(e)]
    if not sites:
        return
    direct = [(n, e) for n, e in sites if e.get("callee") in SPEC]
    R.count("collective_sites", len(sites))
    R.count("mpi_sites", len(direct))
    # arguments
    for n, e in direct:
        c = e["callee"]
        for kind, x in zip(SPEC[c], e["a"]):
            if kind in "cvtoRC":
                R.count("arguments_checked")
                if kind == "c" and own_size(x, e):
                    continue             # judged by the sizes of the buffers
                if F.t(x, F.ins[n.id]):
                    R.violation("%s:%s:arg:%s" % (name, c, show(x)), loc(f, e.get("l")),
                                "%s is given %s, which is not the same on every process" % (c, show(x)), name)
        types(F, n, e, R)
    # who takes part
    comms = sorted({F.comm(x) for n, e in direct for kind, x in zip(SPEC[e["callee"]], e["a"]) if kind == "C"} |
                   set(G.ranks.values()))
    dep = [(n, e) for n, e in sites if n.id in F.ctl or cond_tainted(F, n, e)]
    place = [(n, e) for n, e in direct if e["callee"] in ROOTED_SEND]
    sized = [(n, e) for n, e in direct if any(k in "rb" for k in SPEC[e["callee"]])]
    if sized:
        rooms(F, R, comms)
    if not (dep or place):
        R.count("always_reached", len(sites))
        return
    # branches that decide about a collective
    rel = set()
    todo = [n.id for n, e in sites]
    while todo:
        x = todo.pop()
        for b in F.cd.get(x, ()):
            if b not in rel:
                rel.add(b)
                todo.append(b)
    per = {}
    try:
        for cm in comms or ["?"]:
            for r in range(NRANKS):
                per[cm, r] = paths(F, Rank(F, cm, r), rel)
    except (TooMany, RecursionError):
        R.count("undecided")
        R.note("%s: too many paths" % name)
        return
    R.count("paths_compared", sum(map(len, per.values())))
    seen = set()
    for cm in comms or ["?"]:
        allp = {}
        for r in range(NRANKS):
            for cl, seq in per[cm, r]:
                mine = tuple(t for t, e in seq if comm_in(F, e) in (cm, None))
                allp.setdefault((cl, mine), (r, seq))
        items = sorted(allp.items(), key=lambda z: str(z[0]))
        for i, ((c1, s1), (r1, q1)) in enumerate(items):
            for (c2, s2), (r2, q2) in items[i + 1:]:
                if s1 == s2 or not compatible(c1, c2):
                    continue
                j = 0
                while j < min(len(s1), len(s2)) and s1[j] == s2[j]:
                    j += 1
                long = [x for x in (q1 if len(s1) > j else q2) if comm_in(F, x[1]) in (cm, None)]
                e = long[j][1]
                key = "%s:%s" % (name, long[j][0])
                if key in seen:
                    continue
                seen.add(key)
                R.violation("%s:taking-part:%s" % (name, short(e)), loc(f, e.get("l")),
                            "%s is reached by some processes and not by others (processes %d and %d of %s follow paths "
                            "with different collectives)" % (short(e), r1, r2, cm), name)
                break
            if seen:
                break
        if seen:
            break
    # MPI_IN_PLACE
    done = set()
    for cm in comms:
        for r in range(NRANKS):
            rk = Rank(F, cm, r)
            for cl, seq in per[cm, r]:
                for t, e in seq:
                    c = e.get("callee")
                    if c not in ROOTED_SEND or id(e) in done:
                        continue
                    sp = dict()
                    args = list(zip(SPEC[c], e["a"]))
                    C = [F.comm(x) for k, x in args if k == "C"][0]
                    if C != cm:
                        continue
                    root = [rk.ev(x) for k, x in args if k == "R"][0]
                    s_, r_ = e["a"][0], [x for k, x in args if k == "r"][0]
                    ip = in_place(s_, rk)
                    if ip is None and any(in_place(s_, Rank(F, o, r)) is not None for o in set(G.ranks.values()) - {cm}):
                        done.add(id(e))
                        R.violation("%s:in-place:%s" % (name, show(r_)), loc(f, e.get("l")),
                                    "%s chooses MPI_IN_PLACE by the rank in another communicator" % c, name)
                        continue
                    if ip and root is not None and r != root:
                        done.add(id(e))
                        R.violation("%s:in-place:%s" % (name, show(r_)), loc(f, e.get("l")),
                                    "%s passes MPI_IN_PLACE as the send buffer on processes other than the root" % c, name)
                    elif root is not None and r == root and null(choose(r_, rk)):
                        done.add(id(e))
                        R.violation("%s:receive:%s" % (name, show(r_)), loc(f, e.get("l")),
                                    "%s has no receive buffer at the root" % c, name)
                    elif not ip and root is not None and r == root and show(choose(s_, rk)) == show(choose(r_, rk)):
                        done.add(id(e))
                        R.violation("%s:alias:%s" % (name, show(r_)), loc(f, e.get("l")),
                                    "%s sends and receives in the same buffer at the root" % c, name)


RESIZE = re.compile(r"resize|size|append|insert|prepend|push|pop|clear|delete|copy|ref|swap|load|union|unique|assign|emplace|erase|steal|read|own|transpose|operator|diag|set|reserve|shrink|print|get[A-Z]|getline", re.I)


class Room:
    """Sizes of receive buffers along the paths of one rank: what a container was sized with, against the count."""

    def __init__(s, F, R, comm, r):
        s.F, s.R, s.rk, s.comm, s.r = F, R, Rank(F, comm, r), comm, r
        s.bad = {}
        s.n = 0
        s.seen = 0

    def fresh(s, what):
        s.n += 1
        return {("%s#%d" % (what, s.n),): 1}

    def val(s, e, st):
        e = strip(e)
        k = e["k"] if e is not None else None
        if k in ("int", "bool"):
            return {(): int(e["v"])} if e["v"] else {}
        if k in ("ref", "mem"):
            i = e.get("id")
            if ("v", i) not in st:
                st["v", i] = s.fresh(e["n"])
            return st["v", i]
        if k == "bin" and e["op"] in ("+", "-", "*"):
            x, y = s.val(e["x"], st), s.val(e["y"], st)
            r = {}
            if e["op"] == "*":
                for a, c in x.items():
                    for b, d in y.items():
                        m = tuple(sorted(a + b))
                        r[m] = r.get(m, 0) + c * d
            else:
                r = dict(x)
                for b, d in y.items():
                    r[b] = r.get(b, 0) + (d if e["op"] == "+" else -d)
            return {a: c for a, c in r.items() if c}
        if k == "mcall" and e["callee"].rsplit("::", 1)[-1] in ("size", "Size", "length", "dim") and not e["a"]:
            i = root_id(e.get("obj"))
            if container((strip(e["obj"]) or {}).get("t", "")) and ("s", i) in st and st["s", i][0] is not None:
                return st["s", i][0]
        if k == "cond":
            v = s.rk.ev(e["c"])
            if v is not None:
                return s.val(e["x"] if v else e["y"], st)
        return s.fresh("x")

    def setsize(s, i, args, n, st):
        p = {(): 1}
        for a in args:
            q = s.val(a, st)
            r = {}
            for x, c in p.items():
                for y, d in q.items():
                    m = tuple(sorted(x + y))
                    r[m] = r.get(m, 0) + c * d
            p = {m: c for m, c in r.items() if c}
        st["s", i] = (p, any(s.F.t(a, s.F.ins.get(n.id, frozenset())) for a in args))

    def buffer(s, x, st):
        """(container id, offset poly, size, size-is-not-shared) of a buffer argument."""
        x = choose(x, s.rk)
        if x is None:
            return None
        if x["k"] == "un" and x["op"] == "&":
            y = strip(x["e"])
            if y["k"] in ("ref", "mem") and scalar(y.get("t", "")):
                return (None, {}, {(): 1}, False)
            if y["k"] == "opcall" and y.get("op") == "[]" and container((strip(y["a"][0]) or {}).get("t", "")):
                i = root_id(y["a"][0])
                z = st.get(("s", i))
                return (i, s.val(y["a"][1], st)) + (z or (None, False))
            return None
        if x["k"] == "mcall" and x["callee"].rsplit("::", 1)[-1] in ("data", "GetData") and container((strip(x["obj"]) or {}).get("t", "")):
            i = root_id(x["obj"])
            return (i, {}) + (st.get(("s", i)) or (None, False))
        if x["k"] == "ref":
            m = re.match(r".*\[(\d+)\]$", x.get("t", ""))
            if m:
                return (x["id"], {}, {(): int(m.group(1))}, False)
        return None

    def eff(s, e, n, st):
        if e is None or e["k"] == "lambda":
            return
        for c in kids(e):
            s.eff(c, n, st)
        k = e["k"]
        if k == "assign":
            x = strip(e["x"])
            i = root_id(x)
            if x["k"] in ("ref", "mem"):
                st["v", i] = s.val(e["y"], st) if e.get("op", "=") == "=" else s.fresh("a")
        elif k == "un" and e["op"] in ("++", "--"):
            st["v", root_id(e["e"])] = s.fresh("i")
        elif k in ("call", "mcall", "opcall", "ctor"):
            c = e.get("callee") or ""
            if c in SPEC:
                s.coll(e, n, st)
                for kind, x in zip(SPEC[c], e["a"]):
                    y = choose(x, s.rk)
                    if kind in "rb" and y is not None and y["k"] == "un":
                        z = strip(y["e"])
                        if z["k"] in ("ref", "mem"):
                            st["v", z.get("id")] = s.fresh(z["n"])
                return
            m = c.rsplit("::", 1)[-1]
            if k == "mcall" and e.get("obj") is not None and container((strip(e["obj"]) or {}).get("t", "")):
                i = root_id(e["obj"])
                if m in ("resize", "SetSize", "assign") and e["a"] and all(scalar(a.get("t", "")) for a in e["a"][:1]):
                    two = (strip(e["obj"]).get("t", "")).endswith(("DenseMatrix", "DenseTensor"))
                    s.setsize(i, e["a"] if two else e["a"][:1], n, st)
                elif not e.get("cconst") and RESIZE.search(m) and m != "GetData":
                    st["s", i] = (None, False)
            pt = e.get("pt", [])
            off = 1 if k == "opcall" and len(pt) == len(e["a"]) - 1 else 0
            if k == "opcall" and off and e.get("op") not in ("[]", "()", "==", "!=", "<", ">"):
                st["s", root_id(e["a"][0])] = (None, False)
            for j, x in enumerate(e["a"]):
                if x is not None and 0 <= j - off < len(pt) and pt[j - off].endswith("&") and not pt[j - off].startswith("const "):
                    i = root_id(x)
                    st["s", i] = (None, False)
                    st["v", i] = s.fresh("o")

    def coll(s, e, n, st):
        c = e["callee"]
        args = list(zip(SPEC[c], e["a"]))
        C = [s.F.comm(x) for k, x in args if k == "C"]
        if C and C[0] != s.comm:
            return
        cnt = [x for k, x in args if k == "c"]
        root = [s.rk.ev(x) for k, x in args if k == "R"]
        for kind, x in args:
            if kind not in "rb":
                continue
            if root and (root[0] is None or (kind == "r" and c in ROOTED_SEND and s.r != root[0])):
                continue
            b = s.buffer(x, st)
            if b is None or b[2] is None:
                continue
            i, off, size, unshared = b
            s.seen += 1
            q = s.val(cnt[-1], st) if cnt else None
            msg = None
            receives = not (kind == "b" and root and s.r == root[0])
            if receives and not size and q != {}:
                msg = "the buffer it receives in has no elements"
            elif receives and unshared:
                msg = "the buffer it receives in has a size that is not the same on every process"
            elif q is not None and c in ("MPI_Bcast", "MPI_Reduce", "MPI_Allreduce"):
                d = dict(q)
                for m, v in off.items():
                    d[m] = d.get(m, 0) + v
                for m, v in size.items():
                    d[m] = d.get(m, 0) - v
                d = {m: v for m, v in d.items() if v}
                if d and set(d) == {()} and d[()] > 0:
                    msg = "its count exceeds the size of the buffer by %d" % d[()]
            if msg:
                s.bad[id(e)] = (e, msg)

    def run(s, cap=1500):
        F = s.F
        c = F.cfg
        todo = [(c.entry, frozenset(), frozenset(), {})]
        npaths = 0
        steps = 0
        while todo:
            n, used, facts, st = todo.pop()
            while True:
                steps += 1
                if steps > 60000 or npaths > cap:
                    return False
                if n is c.exit:
                    npaths += 1
                    break
                s.eff(n.e, n, st)
                if n.var is not None:
                    v = n.var
                    i = v["id"]
                    if container(v["t"]):
                        ini = strip(v.get("init")) if v.get("init") is not None else None
                        if ini is None or (ini["k"] == "ctor" and not ini["a"]):
                            st["s", i] = ({}, False)
                        elif ini["k"] == "ctor" and scalar((strip(ini["a"][0]) or {}).get("t", "")):
                            two = v["t"].endswith(("DenseMatrix", "DenseTensor"))
                            s.setsize(i, [a for a in ini["a"] if a is not None] if two else ini["a"][:1], n, st)
                        else:
                            st["s", i] = (None, False)
                    elif scalar(v["t"]):
                        st["v", i] = s.val(v["init"], st) if v.get("init") is not None else s.fresh(v["n"])
                succ = [(m, lab) for m, lab in n.succ if m.id in F.live]
                if not succ:
                    break
                if len(succ) == 1:
                    ek = (n.id, succ[0][0].id, str(succ[0][1]))
                    if ek in used:
                        break
                    used = used | {ek}
                    n = succ[0][0]
                    continue
                val = s.rk.ev(n.e) if n.e is not None and n.stmt != "switch" else None
                t, p = canon_cond(n.e) if n.stmt != "switch" and n.e is not None else (None, True)
                nxt = []
                for m, lab in succ:
                    ek = (n.id, m.id, str(lab))
                    if ek in used:
                        continue
                    f2 = facts
                    if lab in (True, False):
                        if val is not None and bool(val) != lab:
                            continue
                        if val is None and t is not None:
                            if not any(x[0] == n.id for x in used) and (t, lab != p) in facts:
                                continue
                            f2 = facts | {(t, lab == p)}
                    nxt.append((m, used | {ek}, f2, dict(st)))
                todo += nxt
                break
        return True


def rooms(F, R, comms):
    bad = {}
    for cm in comms:
        for r in range(2):
            z = Room(F, R, cm, r)
            if not z.run():
                R.note("%s: sizes not followed" % F.f["name"])
                return
            R.count("buffer_sizes_checked", z.seen)
            bad.update(z.bad)
    for e, msg in bad.values():
        R.violation("%s:%s:room:%s" % (F.f["name"], e["callee"], show(e["a"][0])), loc(F.f, e.get("l")),
                    "%s: %s" % (e["callee"], msg), F.f["name"])


def own_size(x, e):
    x = strip(x)
    if x is None or x["k"] != "mcall" or x["callee"].rsplit("::", 1)[-1] not in ("size", "Size", "length"):
        return False
    i = root_id(x.get("obj"))
    return i is not None and any(root_id(b) == i for k, b in zip(SPEC[e["callee"]], e["a"]) if k in "srb")


def short(e):
    return (e.get("callee") or "?").replace("CAROM::", "")


def comm_in(F, e):
    c = e.get("callee")
    if c in SPEC:
        for k, x in zip(SPEC[c], e["a"]):
            if k == "C":
                return F.comm(x)
    return None


def cond_tainted(F, n, e):
    return conditional_in(n.e, e) and F.t(n.e, F.ins[n.id])


def types(F, n, e, R):
    c = e["callee"]
    args = list(zip(SPEC[c], e["a"]))
    bufs = [x for k, x in args if k in "srb"]
    ts = [x for k, x in args if k == "t"]
    for i, b in enumerate(bufs):
        if not ts:
            return
        t = ts[min(i, len(ts) - 1)]
        m = re.search(r"(ompi_mpi_\w+)", show(strip(t)))
        b = strip(b)
        for x in ([b["x"], b["y"]] if b["k"] == "cond" else [b]):
            x = strip(x)
            if x["k"] in ("int", "null"):
                continue
            et = elem_type(x)
            if m and et and CTYPE.get(m.group(1)) and et in {z for v in CTYPE.values() if v for z in v}:
                R.count("buffer_types_checked")
                if et not in CTYPE[m.group(1)]:
                    R.violation("%s:%s:type:%s" % (F.f["name"], c, show(x)), loc(F.f, e.get("l")),
                                "%s transfers %s elements as %s" % (c, et, m.group(1)), F.f["name"])
    if c in ("MPI_Allreduce",) and show(strip(e["a"][0])) == show(strip(e["a"][1])):
        R.violation("%s:alias:%s" % (F.f["name"], show(e["a"][1])), loc(F.f, e.get("l")),
                    "%s sends and receives in the same buffer" % c, F.f["name"])


def run(P, R):
    R.rule = ("values that differ between processes are tracked from MPI_Comm_rank and rank-guarded statements to the "
              "conditions, loops, early exits and arguments of collectives; for each class of ranks the sequences of "
              "collectives on all paths must agree whenever the shared conditions agree")
    R.assumptions = ["processes run the same program with the same input files and command line",
                     "functions of libraries do not themselves treat processes differently beyond what their own rank queries show"]
    analyse(P, R)


if __name__ == "__main__":
    import sys
    sys.exit(main("C15", run, dict(collective_sites=20, mpi_sites=10)))
