"""C04: named timing sections are balanced on every path (typestate with function summaries)."""
from .ir import *
from .flow import Flow
from .report import main
from .c01 import sig, var_id

# per-path state: frozenset of (key, pre, cur); pre: state the path needs on entry (on/off/None), cur: on/off


def timer_classes(P):
    """Classes of /repo with Start(name) and Stop(name)."""
    out = {}
    for f in P.funcs:
        parts = f["name"].rsplit("::", 1)
        if len(parts) == 2 and parts[1] in ("Start", "Stop", "Print") and f.get("cls"):
            if f["params"] and "basic_string" in f["params"][0]["t"]:
                out.setdefault(f["cls"], {})[parts[1]] = f
    return {c: d for c, d in out.items() if "Start" in d and "Stop" in d}


def str_const(e, f):
    """The text of a string argument, or None."""
    e = strip(e)
    while e is not None and e["k"] in ("ctor", "cast", "uctor") and len(e.get("a", [1])) >= 1:
        e = strip(e["a"][0]) if e["k"] != "cast" else strip(e["e"])
    if e is None:
        return None
    if e["k"] == "str":
        return e["v"]
    if e["k"] == "ref":
        v = f["_vars"].get(e.get("id"))
        if v is not None and v.get("init") is not None:
            return str_const(v["init"], f)
        return "$" + e["n"]
    return "$" + show(e)


class T(Flow):
    def __init__(self, f, P, classes, summ, rep):
        super().__init__(cfg_of(f, P))
        self.f, self.P, self.classes, self.summ, self.rep = f, P, classes, summ, rep
        if "_vars" not in f:
            f["_vars"] = {v["id"]: v for s in stmts(f["body"]) if s["k"] == "decl" for v in s["v"]}
        self.sites = set()
        self.applied = set()

    def init(self):
        return [frozenset()]

    def bad(self, rule, line, key, msg):
        if self.rep is not None:
            self.rep.violation("%s|%s|%s" % (self.f["name"] + sig(self.f), rule, key[1]), loc(self.f, line), msg, self.f["name"])

    def op(self, s, key, want, to, line):
        d = {k: (p, c) for k, p, c in s}
        if key not in d:
            d[key] = (want, to)
        else:
            p, c = d[key]
            if c != want:
                if want == "off":
                    self.bad("restart", line, key, "section \"%s\" is started while it is already running" % key[1])
                else:
                    self.bad("restop", line, key, "section \"%s\" is stopped when it is not running" % key[1])
            d[key] = (p, to)
        return frozenset((k, p, c) for k, (p, c) in d.items())

    def transfer(self, n, s):
        if n.e is None:
            return [s]
        cur = [s]
        for x in walk(n.e):
            if x["k"] not in ("mcall", "call"):
                continue
            c = x.get("callee", "")
            cls, _, m = c.rpartition("::")
            if cls in self.classes and m in ("Start", "Stop") and x["a"]:
                key = (show(strip(x["obj"])) if x.get("obj") is not None else "this", str_const(x["a"][0], self.f))
                self.sites.add((x["l"], m))
                cur = [self.op(t, key, "off" if m == "Start" else "on", "on" if m == "Start" else "off", x["l"]) for t in cur]
            elif cls in self.classes and m == "Print":
                o = show(strip(x["obj"])) if x.get("obj") is not None else "this"
                for t in cur:
                    for k, p, st in t:
                        if k[0] == o and st == "on":
                            self.bad("print", x["l"], k, "timings are reported while section \"%s\" is running" % k[1])
            else:
                g = self.P.callee(x)
                if g is None:
                    continue
                sm = self.summ.get((g["id"], g["type"]))
                if not sm:
                    continue
                on_this = x["k"] == "mcall" and (x.get("obj") is None or strip(x["obj"])["k"] == "this")
                ren = {}
                for i, p in enumerate(g["params"]):
                    if i < len(x["a"]) and x["a"][i] is not None:
                        ren[p["n"]] = (show(strip(x["a"][i])), str_const(x["a"][i], self.f))
                new = set()
                for t in cur:
                    for eff in sm:
                        u = t
                        for (o, name), p, st in sorted(eff):
                            if o in ren:
                                o = ren[o][0]
                            elif not on_this and x["k"] == "mcall":
                                o = show(strip(x["obj"])) + "." + o
                            if name.startswith("$") and name[1:] in ren and ren[name[1:]][1]:
                                name = ren[name[1:]][1]
                            u = self.op(u, (o, name), p, st, x["l"])
                        new.add(u)
                self.applied.add((g["id"], g["type"]))
                cur = list(new)
        return cur

    def exits(self):
        out = {}
        for n, sts in self.exit_pred:
            for s, _ in sts:
                for o in (self.transfer(n, s)):
                    out.setdefault(o, n.line or self.f["end"])
        return out


def run(P, R):
    R.rule = ("Each Start/Stop on a timing profile is a typestate transition of its named section; all paths of every function "
              "that touches a profile (directly or through helpers, which are summarised) are followed. A section may not be "
              "started twice, stopped when idle, reported while running, or left running (or in a path-dependent state) on return. "
              "The profile class itself must mark a section running on every path through Start and idle on every path through Stop.")
    R.assumptions = ["a routine that consistently only starts (or only stops) a section is treated as a helper and judged at its callers",
                     "paths that end in an error exit are not required to stop their sections"]
    classes = timer_classes(P)
    R.count("profile_classes", len(classes))
    own = {(f["id"], f["type"]) for d in classes.values() for f in d.values()}
    rel, ch = set(), True
    byk = {(f["id"], f["type"]): f for f in P.funcs}
    while ch:
        ch = False
        for k, f in byk.items():
            if k in rel or k in own:
                continue
            for e in body_exprs(f):
                if e["k"] in ("mcall", "call") and (e.get("callee", "").rpartition("::")[0] in classes and
                                                    e["callee"].rpartition("::")[2] in ("Start", "Stop", "Print") or
                                                    (e.get("cid"), e.get("cty")) in rel):
                    rel.add(k)
                    ch = True
                    break
    fs = [byk[k] for k in rel]
    summ = {}
    for _ in range(8):
        new = {}
        for f in fs:
            t = T(f, P, classes, summ, None)
            t.run()
            ex = frozenset(t.exits())
            if any(ex):
                new[(f["id"], f["type"])] = ex
        if new == summ:
            break
        summ = new
    called = set()
    results = []
    for f in fs:
        t = T(f, P, classes, summ, R)
        t.run()
        ex = t.exits()
        called |= t.applied
        results.append((f, t, ex))
        if t.sites:
            R.count("functions_analysed")
        R.count("start_stop_sites", len(t.sites))
        for s in sorted(t.sites)[:1]:
            R.sample("%s:%d %s in %s" % (f["file"], s[0], s[1], f["name"]))
    for f, t, ex in results:
        net = {}
        for o, line in ex.items():
            for k, p, c in o:
                net.setdefault(k, {}).setdefault((p, c), line)
        helper = (f["id"], f["type"]) in called
        for k, d in net.items():
            always = all(any(kk == k for kk, _, _ in o) for o in ex)
            unb = {pc: l for pc, l in d.items() if pc[0] != pc[1]}
            if not unb:
                continue
            if f.get("kind") in ("ctor", "dtor") or f["name"].split("::")[-1].startswith("~") or \
                    f.get("cls", "").split("::")[-1] == f["name"].split("::")[-1]:
                R.note("constructor/destructor pair left alone: " + f["name"])
                continue
            if helper and len(d) == 1 and always:
                R.note("helper judged at its callers: " + f["name"])
                continue
            (p, c), line = sorted(unb.items())[0]
            t.bad("leak", line, k, "section \"%s\" is %s on the path that leaves at line %d" %
                  (k[1], "left running" if c == "on" else "stopped without having been started here", line))
    # the profile class keeps its own record of running sections
    for c, d in classes.items():
        marks = {m: marked(d[m], P) for m in ("Start", "Stop")}
        R.count("profile_methods", 2)
        good = marks["Start"].get(True, set()) & marks["Stop"].get(False, set())
        if not good:
            R.violation("%s|record" % c, loc(d["Stop"]), "no record of running sections is set on every path of Start and cleared on "
                        "every path of Stop", d["Stop"]["name"])


def marked(f, P):
    """{value: fields assigned that boolean, as their last assignment, on every returning path}."""
    class A(Flow):
        def init(s):
            return [frozenset()]

        def transfer(s, n, st):
            if n.e is None:
                return [st]
            d = dict(st)
            for x in walk(n.e):
                if x["k"] == "assign" and x["op"] == "=":
                    fld = field_of(x["x"])
                    y = strip(x["y"])
                    if fld:
                        d[fld] = bool(y["v"]) if y["k"] in ("bool", "int") else None
                elif x["k"] == "mcall" and x.get("obj") is not None:
                    fld = field_of(x["obj"])
                    if fld and not x.get("cconst"):
                        d[fld] = None
            return [frozenset(d.items())]
    a = A(cfg_of(f, P))
    a.run()
    res = None
    for n, sts in a.exit_pred:
        for s, _ in sts:
            for o in a.transfer(n, s):
                o = set(o)
                res = o if res is None else res & o
    out = {}
    for k, v in (res or ()):
        out.setdefault(v, set()).add(k)
    return out


def field_of(e):
    e = strip(e)
    while e is not None:
        if e["k"] == "mem":
            return e["n"] if e["b"] is None or e["b"]["k"] == "this" else field_of(e["b"])
        if e["k"] == "opcall" and e["op"] in ("[]", "()"):
            e = strip(e["a"][0])
        elif e["k"] == "sub":
            e = strip(e["x"])
        else:
            return None
    return None


if __name__ == "__main__":
    import sys
    sys.exit(main("C04", run, {"start_stop_sites": 20}))
