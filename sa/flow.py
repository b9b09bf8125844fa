"""Path-sensitive forward dataflow over CFGs (property simulation): the state at a node is a set of
configurations; correlated branches are kept apart by remembering the outcome of conditions that
are tested more than once in a function, until a variable they mention changes."""
from .ir import walk, strip, show, kids

CAP = 3000
FLIP = {"!=": "==", ">=": "<", "<=": ">"}


def canon_cond(c):
    """(text, polarity): negated comparisons share the text of their positive form."""
    c = strip(c)
    if c is None:
        return None, True
    if c["k"] == "bin" and c["op"] in ("==", "!=") and (strip(c["y"])["k"] == "null" or
                                                       (strip(c["y"])["k"] == "int" and strip(c["y"])["v"] == 0)):
        t, p = canon_cond(c["x"])
        return t, (p if c["op"] == "!=" else not p)
    if c["k"] == "bin" and c["op"] in FLIP:
        return "%s %s %s" % (show(c["x"]), FLIP[c["op"]], show(c["y"])), False
    if c["k"] == "bin":
        return "%s %s %s" % (show(c["x"]), c["op"], show(c["y"])), True
    if c["k"] == "un" and c["op"] == "!":
        t, p = canon_cond(c["e"])
        return t, not p
    if c["k"] in ("mcall", "opcall") and c.get("conv"):
        return show(c), True
    return show(c), True


def names_in(e):
    return {x["n"] for x in walk(e) if x["k"] in ("ref", "mem") and "n" in x and x.get("dk") not in ("func", "enum", "method")}


def changed_names(e, P=None):
    """Names of variables an expression may change."""
    out = set()
    for x in walk(e):
        if x["k"] == "assign":
            out |= root_names(x["x"])
        elif x["k"] == "un" and x["op"] in ("++", "--", "&"):
            out |= root_names(x["e"])
        elif x["k"] == "mcall" and not x.get("cconst") and x.get("obj") is not None:
            o = strip(x["obj"])
            if o["k"] in ("ref", "mem") and not x.get("arrow"):
                out |= root_names(o)
        elif x["k"] == "opcall" and x["a"] and (x["op"].endswith("=") and x["op"] not in ("==", "!=", "<=", ">=")):
            out |= root_names(x["a"][0])
        elif x["k"] == "opcall" and x["op"] in (">>", "<<", "++", "--") and x["a"]:
            out |= root_names(x["a"][0])
        if x["k"] in ("call", "mcall", "opcall", "ctor"):
            a = x["a"]
            pt = x.get("pt", [])
            off = 1 if x["k"] == "opcall" and len(pt) == len(a) - 1 else 0
            for i, arg in enumerate(a):
                j = i - off
                if 0 <= j < len(pt) and pt[j].endswith("&") and not pt[j].startswith("const ") and arg is not None:
                    out |= root_names(arg)
    return out


def root_names(e):
    e = strip(e)
    if e is None:
        return set()
    if e["k"] in ("ref",):
        return {e["n"]}
    if e["k"] == "mem":
        return {e["n"]}
    if e["k"] == "sub":
        return root_names(e["x"])
    if e["k"] == "un":
        return root_names(e["e"])
    if e["k"] == "opcall" and e["op"] in ("[]", "()", "*", "->"):
        return root_names(e["a"][0])
    return set()


class Flow:
    """Subclass and override: init() -> iterable of states (hashable); transfer(node, state) -> iterable of
    states; branch(node, state, label) -> iterable of states (may filter); at_exit(node, state)."""

    def __init__(self, cfg):
        self.cfg = cfg
        self.overflow = False
        cnt = {}
        self.cc = {}
        for n in cfg.nodes:
            if n.kind == "branch" and n.e is not None and n.stmt != "switch":
                t, p = canon_cond(n.e)
                if t is not None:
                    self.cc[n.id] = (t, p, names_in(n.e))
                    cnt[t] = cnt.get(t, 0) + 1
        self.multi = {t for t, c in cnt.items() if c > 1}
        self.fact_names = {}
        for t, p, ns in self.cc.values():
            if t in self.multi:
                self.fact_names.setdefault(t, set()).update(ns)
        self.changes = {}

    def node_changes(self, n):
        if n.id not in self.changes:
            s = set()
            if n.e is not None:
                s |= changed_names(n.e)
            if n.var is not None:
                s.add(n.var["n"])
            self.changes[n.id] = s
        return self.changes[n.id]

    def run(self):
        c = self.cfg
        states = {n.id: set() for n in c.nodes}
        byid = {n.id: n for n in c.nodes}
        work = []
        for s in self.init():
            st = (s, frozenset())
            states[c.entry.id].add(st)
            work.append((c.entry, st))
        while work:
            n, (s, facts) = work.pop()
            if n is c.exit or n is c.abort:
                continue
            outs = list(self.transfer(n, s))
            ch = self.node_changes(n) if n.kind != "nop" else ()
            if ch and facts:
                facts = frozenset(f for f in facts if not (self.fact_names[f[0]] & ch))
            for m, lab in n.succ:
                nf = facts
                if n.kind == "branch" and n.id in self.cc and lab in (True, False):
                    t, p, _ = self.cc[n.id]
                    if t in self.multi:
                        val = (lab == p)
                        if (t, not val) in facts:
                            continue
                        nf = facts | {(t, val)}
                for o in outs:
                    for o2 in (self.branch(n, o, lab) if n.kind == "branch" else (o,)):
                        st = (o2, nf)
                        ss = states[m.id]
                        if st in ss:
                            continue
                        if len(ss) > CAP:
                            self.overflow = True
                            st = (o2, frozenset())
                            if st in ss or len(ss) > 3 * CAP:
                                continue
                        ss.add(st)
                        work.append((m, st))
        self.states = states
        self.exit_pred = [(n, states[n.id]) for n in c.nodes if any(m is c.exit for m, _ in n.succ)]
        return states

    def init(self):
        return [()]

    def transfer(self, n, s):
        return [s]

    def branch(self, n, s, lab):
        return [s]
