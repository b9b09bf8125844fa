"""C05: a value that matches no alternative of a dispatch never leaves it normally."""
from .ir import *
from .flow import Flow, changed_names, names_in
from .report import main
from .c01 import sig

UNK = None


def const_of(e):
    """A constant alternative: a string literal, an enumerator, or an integer literal; with its kind."""
    e = strip(e)
    while e is not None and e["k"] in ("ctor", "uctor") and len(e["a"]) >= 1 and e["a"][0] is not None:
        e = strip(e["a"][0])
    if e is None:
        return None
    if e["k"] == "str":
        return ("s", e["v"])
    if e["k"] == "ref" and e.get("dk") == "enum":
        return ("e", e["n"])
    if e["k"] == "int":
        return ("i", e["v"])
    if "cv" in e and isinstance(e["cv"], int) and e["k"] not in ("ref",):
        return ("i", e["cv"])
    return None


def test_of(e):
    """(selector text, selector expr, constant, polarity) of an equality test, or None."""
    e = strip(e)
    if e is None:
        return None
    if e["k"] == "opcall" and e["op"] in ("==", "!=") and len(e["a"]) == 2:
        x, y, op = e["a"][0], e["a"][1], e["op"]
    elif e["k"] == "bin" and e["op"] in ("==", "!="):
        x, y, op = e["x"], e["y"], e["op"]
    elif e["k"] == "mcall" and e.get("callee", "").endswith("::compare") and e["a"]:
        return None
    else:
        return None
    for a, b in ((x, y), (y, x)):
        c = const_of(b)
        if c is not None and const_of(a) is None and c[0] in ("s", "e"):
            return show(strip(a)), strip(a), c, op == "=="
    return None


def inexact_of(e):
    """A partial match (find, compare, substr ...) of a string selector: still an alternative of its dispatch."""
    e = strip(e)
    if e is None:
        return None
    for x in walk(e):
        if x["k"] == "mcall" and x.get("obj") is not None and "basic_string" in x.get("callee", "") and \
                x["callee"].split("::")[-1] in ("find", "rfind", "compare", "substr", "find_first_of", "starts_with"):
            pos = not (e["k"] in ("bin", "opcall") and e["op"] == "==" and x["callee"].split("::")[-1] in ("find", "rfind"))
            return show(strip(x["obj"])), strip(x["obj"]), ("x", show(x)), pos
    return None


class Sim(Flow):
    """Follows, from the entry, the runs in which `sel` equals none of the alternatives it is compared with."""

    def __init__(self, f, P, sel, names, start, an, consts):
        super().__init__(cfg_of(f, P))
        self.f, self.P, self.sel, self.names, self.start, self.an, self.consts = f, P, sel, names, start, an, consts
        self.esc = []       # (line, how)
        self.rets = set()
        self.hit = False

    def init(self):
        return [(self.start is self.cfg.entry, frozenset())]

    def transfer(self, n, s):
        inn, env = s
        d = dict(env)
        if n is self.start:
            inn, self.hit = True, True
        if n.kind == "return":
            if inn:
                c = const_ret(n.e, d)
                if c is not None and self.f["ret"] != "void":
                    self.rets.add((c, n.line))
                else:
                    self.esc.append((n.line, "the routine returns"))
            return []
        if n.e is not None and self.an.call_aborts(n.e, self.sel, self.f, self.consts):
            return []
        ch = self.node_changes(n)
        if inn and ch & self.names and n is not self.start:
            self.esc.append((n.line, "the next one is looked at"))
            return []
        if n.e is not None and n.kind != "branch":
            done = set()
            for x in walk(n.e):
                if x["k"] == "assign" and x["op"] == "=":
                    v = strip(x["x"])
                    c = lit(x["y"])
                    if v["k"] in ("ref", "mem"):
                        done.add(v["n"])
                        if c is not None:
                            d[show(v)] = c
                        else:
                            d.pop(show(v), None)
            for nm in ch - done:
                d.pop(nm, None)
            if n.kind == "decl" and lit(n.e) is not None:
                d[n.var["n"]] = lit(n.e)
        if inn and not d and any(m is self.cfg.exit for m, _ in n.succ) and n.kind != "branch":
            pass
        return [(inn, frozenset(d.items()))]

    def branch(self, n, s, lab):
        if n.e is not None:
            if isinstance(lab, tuple):
                if show(strip(n.e)) == self.sel and lab[0] == "case":
                    return []
            elif lab in (True, False):
                t = test_of(n.e)
                if t is not None and t[0] == self.sel:
                    if lab == t[3]:
                        return []
                else:
                    b = truth(n.e, dict(s[1]))
                    if b is not None and b != lab:
                        return []
        return [s]

    def run(self):
        super().run()
        for (inn, env), _ in self.states[self.cfg.exit.id]:
            if inn:
                self.esc.append((self.f["end"], "the routine returns"))


def lit(e):
    e = strip(e)
    if e is None:
        return None
    if e["k"] == "bool":
        return ("b", bool(e["v"]))
    if e["k"] == "null" or (e["k"] == "int" and e["v"] == 0 and False):
        return ("b", False)
    if e["k"] == "int":
        return ("i", e["v"])
    c = const_of(e)
    return c


def const_ret(e, d):
    e = strip(e)
    if e is None:
        return None
    c = lit(e)
    if c is not None:
        return c
    return d.get(show(e))


def truth(e, d):
    """Truth of a condition under known constants of variables."""
    e = strip(e)
    if e is None:
        return None
    if e["k"] == "bool":
        return bool(e["v"])
    if show(e) in d and d[show(e)][0] in ("b", "i"):
        return bool(d[show(e)][1])
    if e["k"] == "un" and e["op"] == "!":
        b = truth(e["e"], d)
        return None if b is None else not b
    if e["k"] == "bin" and e["op"] in ("==", "!=", "<", "<=", ">", ">="):
        a = d.get(show(strip(e["x"])))
        b = lit(e["y"]) or (("b", False) if strip(e["y"])["k"] == "null" else None)
        if a is not None and b is not None and a[0] == b[0] and a[0] in ("b", "i", "e"):
            if e["op"] == "==":
                return a[1] == b[1]
            if e["op"] == "!=":
                return a[1] != b[1]
            if a[0] == "i":
                return {"<": a[1] < b[1], "<=": a[1] <= b[1], ">": a[1] > b[1], ">=": a[1] >= b[1]}[e["op"]]
    return None


class An:
    def __init__(self, P):
        self.P = P
        self.memo = {}

    def call_aborts(self, e, sel, f, consts):
        """Does the expression pass the selector to a helper that rejects every value outside consts?"""
        for x in walk(e):
            if x["k"] not in ("call", "mcall", "ctor"):
                continue
            g = self.P.callee(x)
            if g is None:
                continue
            for i, a in enumerate(x["a"]):
                if a is not None and i < len(g["params"]) and show(strip(a)) == sel and self.rejects(g, i, 0):
                    return True
        return False

    def rejects(self, g, i, depth):
        k = (g["id"], g["type"], i)
        if k in self.memo:
            return self.memo[k]
        self.memo[k] = False
        if depth > 4:
            return False
        pn = g["params"][i]["n"]
        S = Sim(g, self.P, pn, {pn}, cfg_of(g, self.P).entry, self, None)
        # only meaningful when the helper tests the parameter at all
        if any(n.kind == "branch" and n.e is not None and (test_of(n.e) or (None,))[0] == pn or
               n.kind == "branch" and n.stmt == "switch" and show(strip(n.e)) == pn for n in S.cfg.nodes):
            S.run()
            self.memo[k] = not S.esc and not S.rets
        return self.memo[k]


def dispatches(f, P):
    """(selector, first node, constants, line): chains of equality tests linked by their 'no' edges, and switches."""
    cfg = cfg_of(f, P)
    tests = {}
    for n in cfg.nodes:
        if n.kind == "branch" and n.e is not None:
            if n.stmt == "switch":
                cs = {const_of(lab[1]) for m, lab in n.succ if lab[0] == "case"} - {None}
                tests[n.id] = (n, show(strip(n.e)), strip(n.e), cs, [m for m, lab in n.succ if lab[0] == "default"],
                               {m.id for m, lab in n.succ if lab[0] == "case"})
            else:
                t = test_of(n.e) or inexact_of(n.e)
                if t is not None and n.stmt != "assert":
                    no = [m for m, lab in n.succ if lab == (not t[3])]
                    tests[n.id] = (n, t[0], t[1], {t[2]}, no, {m.id for m, lab in n.succ if lab == t[3]})
    nxt, prev = {}, set()
    for i, (n, sel, se, cs, no, yes) in tests.items():
        # follow the 'no' edge through empty nodes to the next test of the same selector
        cur = list(no)
        hops = 0
        while cur and hops < 6:
            m = cur.pop()
            hops += 1
            if m.id in tests and tests[m.id][1] == sel and m.id != i:
                nxt[i] = m.id
                prev.add(m.id)
                break
            if m.kind == "nop" and len(m.succ) == 1:
                cur.append(m.succ[0][0])
    out = []
    for i in tests:
        if i in prev:
            continue
        n, sel, se, cs, no, yes = tests[i]
        allc, j, seen, tgt = set(cs), i, {i}, set(yes)
        last = i
        while j in nxt and nxt[j] not in seen:
            j = nxt[j]
            seen.add(j)
            allc |= tests[j][3]
            tgt |= tests[j][5]
            last = j
        if len(tgt) < 2:
            continue        # membership test
        out.append((sel, se, n, allc, tests[last][0]))
    return out


ACCEPTED = {
    "LinElastSolver::SetupRHSBCOperators|bdr_type[b]": "boundaries without a type are reported on the console and left free by design",
}


def from_dimension(f, se):
    """Is the variable set from a mesh's Dimension() in this function?"""
    for e in body_exprs(f):
        if e["k"] == "assign" and show(strip(e["x"])) == show(se):
            y = strip(e["y"])
            if y["k"] == "mcall" and y.get("callee", "").split("::")[-1] in ("Dimension", "SpaceDimension"):
                return True
    for s in stmts(f["body"]):
        if s["k"] == "decl":
            for v in s["v"]:
                y = strip(v.get("init"))
                if v["n"] == show(se) and y is not None and y["k"] == "mcall" and y.get("callee", "").split("::")[-1] in ("Dimension", "SpaceDimension"):
                    return True
    return False


def enum_type(t):
    t = (t or "").replace("const ", "").replace("enum ", "").rstrip(" &")
    return t


def value_sets(P):
    """field or variable id -> set of enumerators ever assigned to it, or None when something else is."""
    vs = {}

    def add(i, e):
        c = const_of(e)
        if e is not None and strip(e)["k"] == "cond":
            add(i, strip(e)["x"])
            add(i, strip(e)["y"])
            return
        if c is not None and c[0] == "e":
            if vs.get(i, set()) is not None:
                vs.setdefault(i, set()).add(c[1])
        else:
            vs[i] = None
    for f in P.funcs:
        for i in f.get("inits", []):
            if i.get("id") and i.get("e") is not None:
                add(i["id"], i["e"])
        for s in stmts(f["body"]):
            if s["k"] == "decl":
                for v in s["v"]:
                    if v.get("init") is not None:
                        add(v["id"], v["init"])
        for e in body_exprs(f):
            if e["k"] == "assign":
                v = strip(e["x"])
                if v["k"] in ("ref", "mem") and v.get("id"):
                    add(v["id"], e["y"])
    for r in P.records.values():
        for fl in r.get("fields", []):
            if fl.get("init") is not None:
                add(fl["id"], fl["init"])
    return vs


def run(P, R, listing=False):
    R.rule = ("Every dispatch (a chain of equality tests of one selector against two or more string or enumerator alternatives, or a "
              "switch) is an obligation: the run in which the selector equals none of the alternatives is followed through the "
              "control-flow graph and must end in an error exit; results that helpers return for unknown values are followed into "
              "their callers. In switches no statement list runs on into the next alternative's statements.")
    R.assumptions = ["single tests (is it X or not) are decisions, not dispatches", "integer switches on computed numbers must reject as well"]
    an = An(P)
    vs = value_sets(P)
    enums = {n: [x["n"] for x in e["consts"]] for n, e in P.enums.items()}
    pend = []
    for f in P.funcs:
        for sel, se, start, consts, last in dispatches(f, P):
            if len(consts) < 2:
                continue
            R.count("dispatches")
            R.sample("%s:%d %s over %s in %s" % (f["file"], start.line, sel, sorted(c[1] for c in consts)[:4], f["name"]))
            S = Sim(f, P, sel, names_in(se), start, an, consts)
            S.run()
            if not S.hit:
                R.note("reached only with a listed value: %s in %s" % (sel, f["name"]))
                continue
            key = "%s|%s" % (f["name"], sel)
            if not S.esc and not S.rets:
                continue
            # an enumeration variable that is only ever given matched values
            vid = se.get("id") if se["k"] in ("ref", "mem") else None
            names = {c[1] for c in consts}
            if vid and vs.get(vid) and vs[vid] <= names:
                R.note("only listed values are ever stored in %s (%s)" % (sel, f["name"]))
                continue
            et = enums.get(enum_type(se.get("t")))
            if et and se.get("dk") != "param":
                # the closing enumerator that only counts the others is never stored by the parsers, which reject unknown names
                rest = set(et) - names
                if not rest or rest == {et[-1]} and et[-1].startswith("NUM"):
                    R.note("all enumerators handled: %s in %s" % (sel, f["name"]))
                    continue
            if se["k"] in ("ref", "mem") and {c for c in consts} >= {("i", 1), ("i", 2), ("i", 3)} and from_dimension(f, se):
                R.note("mesh dimension: %s in %s" % (sel, f["name"]))
                continue
            if key in ACCEPTED:
                R.note("%s: %s" % (key, ACCEPTED[key]))
                continue
            if S.esc:
                line, how = S.esc[0]
                R.violation(key, loc(f, start.line), "a value of %s other than %s is not rejected: %s (line %s)" % (
                    sel, ", ".join(sorted(str(c[1]) for c in consts))[:120], how, line), f["name"])
            else:
                pend.append((f, sel, start, consts, S.rets, key))
        fallthrough(f, P, R)
    for f, sel, start, consts, rets, key in pend:
        bad = check_callers(P, f, {c for c, l in rets}, an)
        if bad is not False:
            R.violation(key, loc(f, start.line), "for a value of %s other than %s the routine returns %s%s" % (
                sel, ", ".join(sorted(str(c[1]) for c in consts))[:120], sorted(c[1] for c, l in rets), bad or ""), f["name"])


def check_callers(P, f, rets, an):
    """False when every caller ends in an error for each of the returned constants."""
    k = (f["id"], f["type"])
    n = 0
    for g in P.funcs:
        for e in body_exprs(g):
            if e["k"] in ("call", "mcall") and (e.get("cid"), e.get("cty")) == k:
                n += 1
                for c in rets:
                    if not caller_aborts(g, P, e, c):
                        return ", which %s (line %d) does not reject" % (g["name"], e["l"])
    return False if n else ""


def caller_aborts(g, P, site, c):
    cfg = cfg_of(g, P)
    start = next((n for n in cfg.nodes if n.e is not None and any(x is site for x in walk(n.e))), None)
    if start is None:
        return False
    txt = show(site)
    seen, work = set(), [(start, frozenset([(txt, c)]))]
    while work:
        n, env = work.pop()
        if (n.id, env) in seen:
            continue
        seen.add((n.id, env))
        if n is cfg.abort:
            continue
        if n is cfg.exit or n.kind == "return":
            return False
        d = dict(env)
        if n.e is not None:
            if n.kind == "decl" and (strip(n.e) is site or show(strip(n.e)) == txt):
                d[n.var["n"]] = c
            for x in walk(n.e):
                if x["k"] == "assign" and x["op"] == "=":
                    if strip(x["y"]) is site:
                        d[show(strip(x["x"]))] = c
                    elif show(strip(x["x"])) in d:
                        d.pop(show(strip(x["x"])))
        for m, lab in n.succ:
            if n.kind == "branch" and n.e is not None and lab in (True, False):
                b = truth(n.e, d)
                if b is not None and b != lab:
                    continue
            work.append((m, frozenset(d.items())))
    return True


def fallthrough(f, P, R):
    for s in stmts(f["body"]):
        if s["k"] != "switch" or not s["body"] or s["body"]["k"] != "block":
            continue
        R.count("switches")
        groups = []
        for x in s["body"]["s"]:
            if x is None:
                continue
            if x["k"] in ("case", "default"):
                lab = x
                while x is not None and x["k"] in ("case", "default"):
                    x = x["s"]
                groups.append((lab, [x] if x is not None else []))
            elif groups:
                groups[-1][1].append(x)
        nr = noreturn_funcs(P)
        for i, (lab, body) in enumerate(groups[:-1]):
            if not any(b["k"] not in ("block",) or b["s"] for b in body):
                continue
            c = CFG({"k": "block", "s": [{"k": "for", "init": None, "c": None, "inc": None, "l": 0, "body": {"k": "block", "s": body + [{"k": "return", "e": None, "l": -7}]}}], "l": 0},
                    lambda e: (e.get("cid"), e.get("cty")) in nr)
            seen, todo = {c.entry.id}, [c.entry]
            fall = False
            while todo:
                n = todo.pop()
                if n.kind == "return" and n.line == -7:
                    fall = True
                for m, _ in n.succ:
                    if m.id not in seen:
                        seen.add(m.id)
                        todo.append(m)
            if fall and groups[i + 1][1] and not is_marked(body):
                R.violation("%s|fall|%s" % (f["name"], show(lab.get("v")) if lab["k"] == "case" else "default"), loc(f, lab["l"]),
                            "the alternative %s runs on into the next one" % (show(lab.get("v")) if lab["k"] == "case" else "default"), f["name"])


def is_marked(body):
    return any(b["k"] in ("attr", "fallthrough") for b in body)


if __name__ == "__main__":
    import sys
    sys.exit(main("C05", run, {"dispatches": 20}))
