"""C01: typestate of HDF5 handles on every path."""
from .ir import *
from .flow import Flow, root_names
from . import h5
from .report import main

# state: (env, toks): env = frozenset of (var id, token); toks = frozenset of (token, status)
# token = (line, callee, kind); status: open / closed / fail (known to be an invalid id)


def var_id(e):
    e = strip(e)
    if e is None:
        return None
    if e["k"] == "ref" and e.get("dk") in ("local", "param", "global", "slocal"):
        return e["id"]
    if e["k"] == "mem" and e.get("dk") == "field" and e["b"] is not None and e["b"]["k"] == "this":
        return e["id"]
    return None


class H(Flow):
    def __init__(self, f, P, summ, rep):
        super().__init__(cfg_of(f, P))
        self.f, self.P, self.summ, self.rep = f, P, summ, rep
        self.params = {p["id"]: i for i, p in enumerate(f["params"]) if "long" in p["t"]}
        self.locals = {v["id"] for s in stmts(f["body"]) if s["k"] == "decl" for v in s["v"]}
        self.sites = set()
        self.ret_kinds = set()
        self.exits = []     # statuses at exits

    def init(self):
        env, toks = [], []
        for pid, i in self.params.items():
            t = ("param", i, "?")
            env.append((pid, t))
            toks.append((t, "ext"))
        return [(frozenset(env), frozenset(toks))]

    def bad(self, rule, line, msg, tok, var=""):
        if self.rep is None:
            return
        self.rep.violation("%s|%s|%s|%s" % (self.f["name"] + sig(self.f), rule, tok[1] if tok else "", var),
                           loc(self.f, line), msg, self.f["name"])

    def value(self, e, env):
        """Token held by an expression, or None."""
        v = var_id(e)
        if v is not None:
            for a, t in env:
                if a == v:
                    return t
        return None

    def transfer(self, n, s):
        env, toks = dict(s[0]), dict(s[1])
        if n.kind == "decl" and n.var is not None:
            env.pop(n.var["id"], None)
        e = n.e
        if e is not None:
            self.expr(e, env, toks, n)
            if n.kind == "decl":
                self.bind(n.var["id"], e, env, toks, n.line)
        if n.kind == "return" and e is not None:
            t = self.value(e, env.items())
            if t is None:
                t = self.fresh(strip(e))
                if t is not None:
                    toks[t] = "open"
            if t is not None and t[0] != "param":
                if toks.get(t) == "open":
                    self.ret_kinds.add(t[2])
                toks[t] = "gone"
        return [(frozenset(env.items()), frozenset(toks.items()))]

    def fresh(self, e):
        """Token for an expression that yields a newly opened handle."""
        e = strip(e)
        if e is not None and e["k"] == "cond":
            return self.fresh(e["x"]) or self.fresh(e["y"])
        if e is None or e["k"] not in ("call", "mcall"):
            return None
        c = e.get("callee", "")
        if c in h5.PROD:
            self.sites.add((e["l"], c))
            return (e["l"], c, h5.PROD[c])
        g = self.P.callee(e)
        if g is not None:
            k = self.summ.get((g["id"], g["type"]), {}).get("ret")
            if k:
                self.sites.add((e["l"], c))
                return (e["l"], c, k)
        return None

    def bind(self, v, rhs, env, toks, line):
        t = self.fresh(rhs)
        if t is None:
            t = self.value(rhs, env.items())
            old = env.get(v)
            if t is not None:
                env[v] = t
            else:
                env.pop(v, None)
            self.lost(old, env, toks, line)
            return
        old = env.get(v)
        if old is not None and old != t:
            env.pop(v)
            self.lost(old, env, toks, line)
        if toks.get(t) == "open" and (old == t or t not in env.values()):
            if old == t:
                self.bad("reopen", line, "%s opened by %s is opened again while the previous one is still open"
                         % (h5.KIND.get(t[2], "object"), t[1]), t)
        env[v] = t
        toks[t] = "open"

    def lost(self, t, env, toks, line):
        if t is None or t in env.values() or t[0] == "param":
            return
        if toks.get(t) == "open":
            self.bad("lost", line, "%s opened by %s at line %s is overwritten before it is closed"
                     % (h5.KIND.get(t[2], "object"), t[1], t[0]), t)
            toks[t] = "gone"

    def expr(self, e, env, toks, n):
        for x in walk(e):
            k = x["k"]
            if k == "assign" and x["op"] == "=":
                v = var_id(x["x"])
                if v is not None and ("long" in x["x"]["t"] or self.fresh(x["y"])):
                    if v in self.locals or v in self.params:
                        self.bind(v, x["y"], env, toks, x["l"])
                    else:
                        t = self.value(x["y"], env.items())
                        if t is not None:
                            toks[t] = "gone"      # stored elsewhere: ownership leaves this routine
                elif v is None:
                    t = self.value(x["y"], env.items())
                    if t is not None and t[0] != "param":
                        toks[t] = "gone"
            elif k in ("call", "mcall"):
                self.call(x, env, toks)
            elif k in ("ctor", "ilist", "opcall"):
                for a in x["a"]:
                    t = self.value(a, env.items()) if a is not None else None
                    if t is not None and k != "opcall":
                        toks[t] = "gone"
            elif k == "lambda":
                caps = {c.get("id") for c in x["cap"]}
                for v, t in list(env.items()):
                    if v in caps and t[0] != "param":
                        toks[t] = "gone"
            elif k == "un" and x["op"] == "&":
                v = var_id(x["e"])
                if v in env and env[v][0] != "param":
                    toks[env[v]] = "gone"

    def call(self, x, env, toks):
        c = x.get("callee", "")
        args = x["a"]
        if c in h5.CLOSE:
            t = self.value(args[0], env.items()) if args else None
            if t is None:
                return
            st = toks.get(t)
            if st == "closed":
                self.bad("double", x["l"], "%s is called on a handle that is already closed (opened by %s)" % (c, t[1]), t, show(args[0]))
            elif t[2] != "?" and t[2] not in h5.CLOSE[c]:
                self.bad("kind", x["l"], "%s is used to close a %s opened by %s" % (c, h5.KIND[t[2]], t[1]), t, show(args[0]))
            toks[t] = "closed"
            return
        g = self.P.callee(x)
        sm = self.summ.get((g["id"], g["type"]), {}) if g is not None else {}
        for i, a in enumerate(args):
            if a is None:
                continue
            t = self.value(a, env.items())
            if t is None:
                # handle opened directly in an argument and never closable
                ft = self.fresh(a)
                if ft is not None and g is None and c not in h5.CLOSE:
                    toks[ft] = "open"
                elif ft is not None and i not in sm.get("closes", ()):
                    toks[ft] = "open"
                # out-parameters that receive a new handle
                if i in sm.get("outs", {}):
                    v = var_id(a)
                    if v is not None:
                        nt = (x["l"], c, sm["outs"][i])
                        self.sites.add((x["l"], c))
                        env[v] = nt
                        toks[nt] = "open"
                continue
            if toks.get(t) == "closed":
                self.bad("use", x["l"], "%s uses a handle that has been closed (opened by %s)" % (c or "call", t[1]), t, show(a))
            if i in sm.get("closes", ()):
                toks[t] = "closed"
            elif i in sm.get("outs", {}):
                v = var_id(a)
                if v is not None:
                    nt = (x["l"], c, sm["outs"][i])
                    self.sites.add((x["l"], c))
                    env[v] = nt
                    toks[nt] = "open"
            elif g is None and not h5.is_h5(c) and t[0] != "param" and not c.startswith(("printf", "std::", "fprintf")):
                if x.get("pt") and i < len(x["pt"]) and "*" in x["pt"][i]:
                    toks[t] = "gone"

    def branch(self, n, s, lab):
        """`h < 0` true: the handle is invalid, nothing to close."""
        e = strip(n.e) if n.e is not None else None
        if e is not None and e["k"] == "bin" and lab in (True, False):
            x, y, op = strip(e["x"]), strip(e["y"]), e["op"]
            t = self.value(x, s[0])
            zero = y["k"] == "int" and y["v"] == 0 or (y.get("cv") == -1)
            if t is not None and zero and dict(s[1]).get(t) == "open":
                inval = {("<", True), (">=", False)}
                if y.get("cv") == -1:
                    inval |= {("==", True), ("!=", False), ("<=", True), (">", False)}
                if (op, lab) in inval:
                    d = dict(s[1])
                    d[t] = "fail"
                    return [(s[0], frozenset(d.items()))]
        return [s]

    def finish(self):
        closes, outs = None, {}
        seen_exit = False
        for n, sts in self.exit_pred:
            for (st, facts) in sts:
                res = list(self.transfer(n, st))
                for env, toks in res:
                    if n.kind == "branch":
                        labs = [lab for m, lab in n.succ if m is self.cfg.exit]
                        cand = [b for lab in labs for b in self.branch(n, (env, toks), lab)]
                    else:
                        cand = [(env, toks)]
                    for env2, toks2 in cand:
                        seen_exit = True
                        d = dict(toks2)
                        ev = dict(env2)
                        cl = {t[1] for t, s in d.items() if t[0] == "param" and s == "closed"}
                        closes = cl if closes is None else closes & cl
                        for t, s in d.items():
                            if s != "open" or t[0] == "param":
                                continue
                            holders = [v for v, tt in ev.items() if tt == t]
                            out = [self.params[v] for v in holders if v in self.params and self.f["params"][self.params[v]]["t"].endswith("&")]
                            if out:
                                outs[out[0]] = t[2]
                                continue
                            self.bad("leak", n.line or t[0], "%s opened by %s at line %s is not closed on the path that leaves at line %s"
                                     % (h5.KIND.get(t[2], "object"), t[1], t[0], n.line or self.f["end"]), t)
        r = {}
        if self.ret_kinds and "long" in self.f["ret"]:
            r["ret"] = sorted(self.ret_kinds)[0]
        if closes:
            r["closes"] = tuple(sorted(closes))
        if outs:
            r["outs"] = outs
        return r


def sig(f):
    """Distinguishes overloads in violation keys."""
    return "(" + ",".join(p["t"].replace("const ", "").replace("std::basic_string<char, std::char_traits<char>, std::allocator<char>>", "string").replace(" ", "") for p in f["params"]) + ")" if f["params"] else "()"


def relevant(f, P, rel):
    for e in body_exprs(f):
        if e["k"] in ("call", "mcall"):
            if h5.is_h5(e.get("callee")):
                return True
            if (e.get("cid"), e.get("cty")) in rel:
                return True
    return False


def run(P, R):
    R.rule = ("Every call that opens an HDF5 object (directly or through a helper that returns or fills a handle) "
              "is an obligation; a path-sensitive typestate analysis over each function's control-flow graph, with "
              "summaries for helpers that open or close handles, requires it to be closed by the matching call on "
              "every path that returns, never used or closed after that, and never overwritten while open.")
    R.assumptions = ["handles stored in objects, containers or through pointers leave the routine and are not followed",
                     "paths that end in an assertion failure or error exit are not required to release handles"]
    rel = set()
    ch = True
    while ch:
        ch = False
        for f in P.funcs:
            k = (f["id"], f["type"])
            if k not in rel and relevant(f, P, rel) and any("long" in p["t"] for p in f["params"]) or \
                    k not in rel and relevant(f, P, set()):
                rel.add(k)
                ch = True
    fs = [f for f in P.funcs if (f["id"], f["type"]) in rel or relevant(f, P, rel)]
    summ = {}
    for _ in range(6):
        new = {}
        for f in fs:
            h = H(f, P, summ, None)
            h.run()
            r = h.finish()
            if r:
                new[(f["id"], f["type"])] = r
        if new == summ:
            break
        summ = new
    for f in fs:
        h = H(f, P, summ, R)
        h.run()
        h.finish()
        R.count("functions_analysed")
        R.count("open_sites", len(h.sites))
        R.count("cfg_nodes", len(h.cfg.nodes))
        R.count("configurations", sum(len(v) for v in h.states.values()))
        if h.overflow:
            R.note("configuration cap reached in " + f["name"])
        for s in sorted(h.sites)[:1]:
            R.sample("%s:%s %s in %s" % (f["file"], s[0], s[1], f["name"]))


if __name__ == "__main__":
    import sys
    sys.exit(main("C01", run, {"open_sites": 30}))
