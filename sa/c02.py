"""C02: a failing HDF5 call never goes unnoticed. For each call site the analysis follows the run in
which exactly that call fails (returns a negative value) through the control-flow graph."""
from .ir import *
from .flow import Flow
from . import h5
from .report import main
from .c01 import sig, var_id

# yes/no queries, and calls that only describe an object: negative and "no" are treated alike by design
QUERY = {"H5Lexists", "H5Aexists", "H5Oexists_by_name", "H5Tequal", "H5Iis_valid", "H5Fis_hdf5", "H5Eset_auto2",
         "H5Eset_auto1", "H5Eprint2", "H5Tget_class", "H5open", "H5close"}
UNK = None


def ev(e, env, hot):
    """Abstract value of e: 'neg' (some negative number), True/False, int, or None (unknown). hot: set that
    receives True when the failed value took part."""
    e = strip(e)
    if e is None:
        return UNK
    k = e["k"]
    if k in ("int", "bool"):
        return e["v"]
    if "cv" in e:
        return e["cv"]
    if k == "null":
        return 0
    if k in ("ref", "mem"):
        v = var_id(e)
        if v in env:
            hot.add(True)
            return env[v]
        return UNK
    if id(e) in env:
        hot.add(True)
        return env[id(e)]
    if k == "un":
        a = ev(e["e"], env, hot)
        if e["op"] == "!":
            return UNK if a is UNK else (not truth(a))
        if e["op"] == "-" and isinstance(a, int) and not isinstance(a, bool):
            return -a
        return UNK
    if k == "bin":
        op = e["op"]
        a, b = ev(e["x"], env, hot), ev(e["y"], env, hot)
        if op == "&&":
            if a is not UNK and not truth(a) or b is not UNK and not truth(b):
                return False
            return True if a is not UNK and b is not UNK else UNK
        if op == "||":
            if a is not UNK and truth(a) or b is not UNK and truth(b):
                return True
            return False if a is not UNK and b is not UNK else UNK
        if a is UNK or b is UNK:
            return UNK
        if op in ("<", ">", "<=", ">=", "==", "!="):
            if a == "neg" or b == "neg":
                res = set()
                for va in ((-1, -2) if a == "neg" else (int(a),)):
                    for vb in ((-1, -2) if b == "neg" else (int(b),)):
                        res.add(cmp(op, va, vb))
                # -1 is what every HDF5 call returns on failure
                return cmp(op, -1 if a == "neg" else int(a), -1 if b == "neg" else int(b))
            return cmp(op, int(a), int(b))
        return UNK
    if k == "assign" and e["op"] == "=":
        return ev(e["y"], env, hot)
    if k == "cond":
        c = ev(e["c"], env, hot)
        if c is UNK:
            return UNK
        return ev(e["x"] if truth(c) else e["y"], env, hot)
    return UNK


def truth(a):
    return True if a == "neg" else bool(a)


def cmp(op, a, b):
    return {"<": a < b, ">": a > b, "<=": a <= b, ">=": a >= b, "==": a == b, "!=": a != b}[op]


class Fail(Flow):
    # state: None (nothing failed yet) or (env frozenset, handled flag, last line)
    def __init__(self, f, P, site, failval, an):
        super().__init__(cfg_of(f, P))
        self.f, self.P, self.site, self.failval, self.an = f, P, site, failval, an
        self.viol = []

    def init(self):
        return [None]

    def transfer(self, n, s):
        if n.e is None:
            return [s]
        if not contains(n.e, self.site):
            if s is None:
                return [s]
            return self.step(n, s)
        # the call of interest is evaluated here
        out = [s] if s is None else self.step(n, s)
        env = {id(self.site): self.failval}
        fresh = (frozenset(env.items()), False)
        r = self.step(n, fresh, True)
        return out + r

    def step(self, n, s, first=False):
        env, handled = dict(s[0]), s[1]
        seen_site = not first
        for x in walk(n.e):
            if x is self.site:
                seen_site = True
                continue
            if not seen_site:
                continue
            k = x["k"]
            if k == "assign" and x["op"] == "=":
                v = var_id(x["x"])
                if v is not None:
                    a = ev(x["y"], env, set())
                    if a is UNK:
                        if v in env:
                            del env[v]
                    else:
                        if not used_hot(x["y"], env) and v in env:
                            del env[v]
                        elif used_hot(x["y"], env):
                            env[v] = a
                if not any(kk for kk in env) and not handled:
                    self.viol.append((x["l"], "its status is overwritten before it is checked"))
                    return []
            elif k in ("call", "mcall", "ctor"):
                c = x.get("callee", "")
                g = self.P.callee(x)
                for i, a in enumerate(x["a"]):
                    if a is None:
                        continue
                    hot = set()
                    val = ev(a, env, hot)
                    if hot and val is not UNK:
                        if g is not None and self.an.aborts(g, i, val):
                            return []
                        if h5.is_h5(c):
                            # given an invalid object, the call fails in its turn
                            if "long" in (x.get("pt") or [""] * 9)[i] and not x.get("cty", "").startswith("void"):
                                env[id(x)] = "neg"
                            continue
                        if g is not None and "long" in g["params"][i]["t"] if g is not None and i < len(g["params"]) else False:
                            self.viol.append((x["l"], "%s is then called with its result" % c))
                            return []
        if n.kind == "decl":
            hot = set()
            a = ev(n.e, env, hot)
            if hot and a is not UNK:
                env[n.var["id"]] = a
        if n.kind == "return":
            hot = set()
            a = ev(n.e, env, hot)
            self.ret(n, a, bool(hot), handled)
            return []
        for kk in [q for q in env if isinstance(q, int)]:
            if n.kind != "branch":
                del env[kk]
        if not env and not handled:
            self.viol.append((n.line, "its status is discarded"))
            return []
        return [(frozenset(env.items()), handled)]

    def branch(self, n, s, lab):
        if s is None or n.e is None or lab not in (True, False):
            if s is not None and isinstance(lab, tuple):
                return [s]
            return [s]
        env, handled = dict(s[0]), s[1]
        hot = set()
        a = ev(n.e, env, hot)
        for kk in [q for q in env if isinstance(q, int)]:
            del env[kk]
        if a is not UNK:
            if truth(a) != lab:
                return []
            if hot:
                if self.failval != "neg":
                    return []      # a failure reported by a helper has been tested: handled
                handled = True
        return [(frozenset(env.items()), handled)]

    def ret(self, n, a, hot, handled):
        t = self.f["ret"]
        if t == "void":
            self.viol.append((n.line, "the routine returns normally" if handled else "the routine returns without having checked it"))
        elif a == "neg" or (a is False) or (a == 0 and "*" in t) or (isinstance(a, int) and not isinstance(a, bool) and a < 0):
            self.an.fallible.setdefault((self.f["id"], self.f["type"]), a)
        elif handled and a is UNK and t != "void":
            self.viol.append((n.line, "the routine returns normally"))
        else:
            self.viol.append((n.line, "the routine returns without reporting it"))

    def finish(self):
        for n, sts in self.exit_pred:
            if n.kind == "return" and n.e is not None:
                continue
            for s, _ in sts:
                for o in (self.transfer(n, s) if n.kind != "return" else [s]):
                    outs = [o]
                    if n.kind == "branch":
                        outs = [b for m, lab in n.succ if m is self.cfg.exit for b in self.branch(n, o, lab)]
                    for b in outs:
                        if b is not None:
                            self.viol.append((n.line or self.f["end"], "the routine returns normally" if b[1] else
                                              "the routine returns without having checked it"))


def used_hot(e, env):
    hot = set()
    ev(e, env, hot)
    return bool(hot)


def contains(e, site):
    return any(x is site for x in walk(e))


class An:
    def __init__(self, P):
        self.P = P
        self.fallible = {}
        self._ab = {}

    def aborts(self, g, i, val):
        """Does g end the program whenever its i-th argument has the failing value?"""
        k = (g["id"], g["type"], i, val)
        if k in self._ab:
            return self._ab[k]
        self._ab[k] = False
        if i >= len(g["params"]):
            return False
        F = ParamFail(g, self.P, g["params"][i]["id"], val, self)
        F.run()
        r = not F.states[F.cfg.exit.id]
        self._ab[k] = r
        return r


class ParamFail(Flow):
    def __init__(self, f, P, pid, val, an):
        super().__init__(cfg_of(f, P))
        self.env0, self.P, self.an = frozenset([(pid, val)]), P, an

    def init(self):
        return [self.env0]

    def transfer(self, n, s):
        env = dict(s)
        if n.e is not None:
            for x in walk(n.e):
                if x["k"] == "assign":
                    v = var_id(x["x"])
                    if v is not None:
                        a = ev(x["y"], env, set())
                        if a is UNK:
                            env.pop(v, None)
                        else:
                            env[v] = a
                elif x["k"] in ("call", "mcall"):
                    g = self.P.callee(x)
                    for i, a in enumerate(x["a"]):
                        hot = set()
                        val = ev(a, env, hot) if a is not None else UNK
                        if hot and val is not UNK:
                            if g is not None and self.an.aborts(g, i, val):
                                return []
                            if h5.is_h5(x.get("callee", "")) and "long" in (x.get("pt") or [""] * 9)[i]:
                                env[id(x)] = "neg"
            if n.kind == "decl":
                a = ev(n.e, env, set())
                if a is not UNK:
                    env[n.var["id"]] = a
        return [frozenset(env.items())]

    def branch(self, n, s, lab):
        if n.e is None or lab not in (True, False):
            return [s]
        a = ev(n.e, dict(s), set())
        if a is not UNK and truth(a) != lab:
            return []
        return [s]


def run(P, R):
    R.rule = ("Every call to a fallible HDF5 function is an obligation: the run in which that call returns a negative value is "
              "followed through the control-flow graph with a sign abstraction; it must end in a failed assertion or error "
              "exit, or be reported to the caller as a failure, before its result or any further HDF5 object is used.")
    R.assumptions = ["yes/no queries (H5Lexists and the like) are not obligations", "assertions are enabled, as in the build"]
    an = An(P)
    sites = []
    for f in P.funcs:
        for e in body_exprs(f):
            c = e.get("callee")
            if e["k"] == "call" and h5.is_h5(c) and c not in QUERY and not e.get("cty", "").startswith("void"):
                sites.append((f, e, "neg"))
    done, round_ = set(), 0
    todo = sites
    reach = {}
    while todo and round_ < 6:
        round_ += 1
        before = dict(an.fallible)
        for f, e, val in todo:
            if id(e) in done:
                continue
            done.add(id(e))
            # only sites on reachable code
            F = Fail(f, P, e, val, an)
            F.run()
            F.finish()
            kind = "h5_call_sites" if val == "neg" and h5.is_h5(e.get("callee")) else "helper_call_sites"
            R.count(kind)
            R.count("configurations", sum(len(v) for v in F.states.values()))
            if kind == "h5_call_sites":
                R.sample("%s:%d %s in %s" % (f["file"], e["l"], e["callee"], f["name"]))
            for line, msg in F.viol[:1]:
                R.violation("%s|%s|%s" % (f["name"] + sig(f), e["callee"].split("::")[-1], show(e)[:80]),
                            loc(f, e["l"]), "if %s fails, %s (line %s)" % (show(e), msg, line), f["name"])
        todo = []
        new = {k: v for k, v in an.fallible.items() if k not in before}
        if not new:
            break
        for f in P.funcs:
            for e in body_exprs(f):
                if e["k"] in ("call", "mcall") and (e.get("cid"), e.get("cty")) in new:
                    todo.append((f, e, new[(e["cid"], e["cty"])]))


if __name__ == "__main__":
    import sys
    sys.exit(main("C02", run, {"h5_call_sites": 100}))
