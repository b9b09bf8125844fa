"""C16: an operation that is not provided (or only for other settings) stops with an error; it never returns normally
without having done anything."""
from .ir import *
from .flow import root_names
from .report import main

DIAG = {"printf", "fprintf", "mfem_warning", "puts", "fputs", "fflush", "putchar", "perror"}
SHAPE = {"SetSize", "Reset", "DeleteAll", "SetDataAndSize", "resize", "clear", "reserve", "Reserve", "Clear", "Destroy"}
STREAMS = ("std::cout", "std::cerr", "std::clog", "mfem::out", "mfem::err", "std::endl", "cout", "cerr", "endl", "out", "err")


def base_name(x):
    return x.get("callee", "").split("::")[-1].split("<")[0]


SCALAR = {"int", "double", "bool", "float", "long", "unsigned int", "unsigned long", "char", "size_t", "hsize_t", "hid_t", "herr_t", "short"}
PURE = {"sqrt", "pow", "abs", "fabs", "exp", "log", "sin", "cos", "tan", "min", "max", "to_string", "isnan", "floor", "ceil", "atan2",
        "string_format"}


def byval(x):
    return all(not (t.endswith("&") and not t.startswith("const ")) and ("*" not in t or t.startswith("const ")) for t in x.get("pt", []))


def is_stream(e):
    e = strip(e)
    if e is None:
        return False
    if e["k"] == "opcall" and e["op"] == "<<":
        return is_stream(e["a"][0])
    return e["k"] in ("ref", "mem") and e["n"].split("::")[-1] in ("cout", "cerr", "clog", "out", "err")


def lit_expr(e, loc_=()):
    """A value that depends on nothing the caller provides."""
    e = strip(e)
    if e is None:
        return True
    if e["k"] in ("int", "bool", "null", "str", "float", "char"):
        return True
    if e["k"] == "ref" and e.get("dk") == "enum":
        return True
    if e["k"] == "un" and e["op"] in ("-", "+", "!", "~"):
        return lit_expr(e["e"], loc_)
    if e["k"] in ("ctor", "uctor"):
        return all(a is None or lit_expr(a, loc_) for a in e["a"])
    if e["k"] == "ref" and e["n"] in loc_:
        return True
    if "cv" in e:
        return True
    if e["k"] == "cond":
        return lit_expr(e["x"], loc_) and lit_expr(e["y"], loc_)
    return False


class Fn:
    def __init__(self, f, P):
        self.f, self.P = f, P
        self.cfg = cfg_of(f, P)
        self.locals = set()
        self.own = set()      # locals that are values, not references or pointers into something else
        tainted = set()
        for s in stmts(f["body"]):
            if s["k"] == "decl":
                for v in s["v"]:
                    self.locals.add(v["n"])
                    t = v.get("t", "")
                    if t.replace("const ", "") in SCALAR or "basic_string" in t or "stringstream" in t:
                        self.own.add(v["n"])
        # constant locals: only ever given constants
        self.const = set()
        vals = {}
        for s in stmts(f["body"]):
            if s["k"] == "decl":
                for v in s["v"]:
                    vals.setdefault(v["n"], []).append(v.get("init"))
        for e in body_exprs(f):
            if e["k"] == "assign":
                for n in root_names(e["x"]):
                    vals.setdefault(n, []).append(e["y"] if e.get("op", "=") == "=" else e)
            if e["k"] in ("un",) and e["op"] in ("++", "--", "&"):
                for n in root_names(e["e"]):
                    vals.setdefault(n, []).append(e)
        self.const = {n for n in self.own if n in vals and all(v is None or lit_expr(v) for v in vals[n])}
        self.params = {p["n"] for p in f["params"]} if f.get("cls") else set()

    def effect(self, n):
        """Does the node do anything a caller could depend on?"""
        if n.e is None:
            return False
        if n.kind == "return":
            return not lit_expr(n.e, self.const) or self.expr_effect(n.e)
        return self.expr_effect(n.e)

    def expr_effect(self, root):
        for x in walk(root):
            k = x["k"]
            if k == "assign":
                r = root_names(x["x"])
                if r and r <= self.own:
                    continue
                if r and r <= self.params | self.own and lit_expr(x["y"], self.const):
                    continue
                return True
            if k == "un" and x["op"] in ("++", "--"):
                if not root_names(x["e"]) <= self.own:
                    return True
            elif k in ("delete", "new"):
                return True
            elif k in ("call", "mcall", "opcall"):
                if k == "call" and base_name(x) in DIAG:
                    continue
                if k == "opcall" and x["op"] == "<<" and is_stream(x):
                    continue
                if k == "opcall" and x["op"] in ("==", "!=", "[]", "()", "<", ">", "<=", ">=", "+", "-", "*", "!"):
                    continue
                if k == "opcall" and x["op"] == "=" and x["a"] and lit_expr(x["a"][1], self.const) and \
                        root_names(x["a"][0]) and root_names(x["a"][0]) <= self.params | self.own:
                    continue
                if k == "opcall" and x["op"].endswith("=") and x["a"] and root_names(x["a"][0]) and root_names(x["a"][0]) <= self.own:
                    continue
                if k == "mcall" and x.get("cconst") and (byval(x) or all(a is None or self.fixed(a) for a in x["a"])):
                    continue
                if k == "mcall" and x.get("obj") is not None and strip(x["obj"])["k"] == "ref":
                    on = strip(x["obj"])["n"]
                    if on in self.own and not x.get("arrow"):
                        continue
                    if on in self.params and base_name(x) in SHAPE:
                        continue
                if k == "call" and byval(x) and base_name(x) in PURE:
                    continue
                return True
        return False

    def fixed(self, a):
        """An argument through which nothing outside the routine can be changed."""
        a = strip(a)
        return a["k"] == "ref" and a["n"] in self.own or lit_expr(a, self.const)

    def diag(self, n):
        if n.e is None:
            return False
        for x in walk(n.e):
            if x["k"] == "call" and base_name(x) in DIAG:
                return True
            if x["k"] == "opcall" and x["op"] == "<<" and is_stream(x):
                return True
            if x["k"] == "str" and strip(n.e) is x:
                return True
        return False

    def checker(self):
        """Stops on some condition of what it is given, and returns otherwise."""
        seen, work = {}, [self.cfg.entry]
        while work:
            n = work.pop()
            if n.id not in seen:
                seen[n.id] = n
                work += [m for m, l in n.succ]
        return self.cfg.abort.id in seen and any(n.kind == "branch" and n.e is not None and any(x["k"] in ("ref", "mem") for x in walk(n.e))
                                                 for n in seen.values())

    def on_settings(self, c):
        """A decision on the object's own scalar settings."""
        return all(x["k"] != "ref" or x.get("dk") in ("enum", "func") for x in walk(c)) and \
            not any(x["k"] in ("call", "mcall") for x in walk(c)) and any(x["k"] == "mem" for x in walk(c))

    def classify(self):
        cfg = self.cfg
        back = {}
        for n in cfg.nodes:
            for m, l in n.succ:
                back.setdefault(m.id, []).append(n)
        live, work = {cfg.exit.id}, [cfg.exit]       # nodes from which the routine returns
        while work:
            for n in back.get(work.pop().id, []):
                if n.id not in live:
                    live.add(n.id)
                    work.append(n)
        seen, work, exits, anyeff = set(), [cfg.entry], False, False
        while work:
            n = work.pop()
            if n.id in seen:
                continue
            seen.add(n.id)
            if n is cfg.abort:
                continue
            if n is cfg.exit:
                exits = True
                continue
            if n.id in live and self.effect(n):
                anyeff = True
            work += [m for m, l in n.succ]
        # effect-free path through a message
        seen, work, told = set(), [(cfg.entry, False)], None
        while work:
            n, d = work.pop()
            if (n.id, d) in seen:
                continue
            seen.add((n.id, d))
            if n is cfg.abort:
                continue
            if n is cfg.exit:
                if d:
                    told = told or d
                continue
            if self.effect(n):
                continue
            if n.kind == "branch" and n.e is not None and not self.on_settings(n.e):
                continue
            if self.diag(n):
                d = n.line or d or f_line(self.f)
            work += [(m, d) for m, l in n.succ]
        return exits, anyeff, told


def f_line(f):
    return f["line"]


def sigtypes(f):
    return f["type"][f["type"].find("(") + 1:].rsplit(")", 1)[0]


def key_of(f):
    return "%s(%d)" % (f["name"], len(f["params"]))


def run(P, R):
    R.rule = ("(1) A routine that can return normally does something: it changes something beyond its own local values with data that is "
              "not a mere constant, calls something that does, or returns a value computed from what it was given. A routine (other than a "
              "constructor or destructor) all of whose normal paths do nothing must have no normal path, i.e. stop with an error; and no "
              "path that only prints a message or holds a bare message string returns normally having done nothing. (2) Every output "
              "parameter (a modifiable reference) is used. (3) A setting stored by a constructor or setter is read somewhere else: a setting "
              "nobody looks at is neither provided nor rejected. (4) The result of a dynamic_cast of an argument is tested, and "
              "the failed case stops. (5) A Solver's Mult looks at iterative_mode.")
    R.assumptions = ["a constant answer of a routine without parameters (GetType) is an answer",
                     "routines that print their argument (Print..., Report...) do so by design"]
    seen = set()
    for f in P.funcs:
        if f.get("body") is None or f.get("implicit") or f.get("defaulted"):
            continue
        if f["file"].startswith("bin/") or f["file"].startswith("utils/"):
            continue
        kind = f.get("kind")
        if kind in ("ctor", "dtor"):
            continue
        k = (f["name"], f["type"])
        if k in seen:
            continue
        seen.add(k)
        F = Fn(f, P)
        R.count("routines")
        exits, anyeff, told = F.classify()
        if not exits:
            R.count("stops_always")
            R.sample("%s:%d %s stops with an error on every path" % (f["file"], f["line"], f["name"]), 40)
            continue
        nm = f["name"].split("::")[-1]
        ret = f["ret"].strip()
        printer = nm.startswith("Print") or nm.startswith("Report")
        if not anyeff and not printer:
            if ret == "void":
                if not f.get("virtual") and not f.get("overrides") and F.checker():
                    R.count("checkers")
                    continue
                R.violation(key_of(f) + ":nothing", loc(f), "the routine returns normally without having done anything", f["name"])
                continue
            if (f["params"] and not any_param_read(f)) or ret.endswith("*") or ret.endswith("&") or answered(f, P):
                if not const_answer(f) or answered(f, P):
                    R.violation(key_of(f) + ":constant", loc(f), "the routine returns a constant whatever it is given", f["name"])
                    continue
        if told and not printer and ret == "void":
            R.violation(key_of(f) + ":told", loc(f, told), "a path prints a message and then returns normally without having done anything", f["name"])
        # (2) output parameters
        used = {e.get("id") for e in body_exprs(f) if e["k"] == "ref"}
        for p in f["params"]:
            t = p.get("t", "")
            if p.get("n") and t.endswith("&") and not t.startswith("const ") and "Transformation" not in t and "Mesh" not in t:
                R.count("output_parameters")
                if p["id"] not in used:
                    R.violation("%s:%s" % (key_of(f), p["n"]), loc(f), "the output %s is never written" % p["n"], f["name"])
    settings(P, R)
    casts(P, R)
    solvers(P, R)


def const_answer(f):
    """Boolean or enumerator queries about the class itself (SupportsDevice, GetType)."""
    return not f["params"] and (f["ret"].strip() in ("bool", "const bool") or not (f["ret"].strip().endswith("*") or f["ret"].strip().endswith("&")))


def answered(f, P):
    """A subclass computes the answer."""
    if not f.get("virtual"):
        return False
    for g in P.funcs:
        if g.get("body") and "%s %s" % (f["name"], f["type"]) in g.get("overrides", []):
            if any(n.kind == "return" and n.e is not None and not lit_expr(n.e) for n in cfg_of(g, P).nodes):
                return True
    return False


def any_param_read(f):
    ids = {p["id"] for p in f["params"]}
    return any(e["k"] == "ref" and e.get("id") in ids for e in body_exprs(f))


def settings(P, R):
    fields = {}
    for n, r in P.records.items():
        for fl in r["fields"]:
            fields[fl["id"]] = (n, fl, r)
    reads, writes, where = {}, {}, {}
    for f in P.funcs:
        if f.get("body") is None:
            continue
        pn = {p["id"] for p in f["params"]}
        setter = f.get("kind") == "ctor" or f["name"].split("::")[-1].startswith("Set")
        for i in f.get("inits", []):
            e = i.get("e")
            if e is None:
                continue
            if i.get("id") in fields and any(x["k"] == "ref" and x.get("id") in pn for x in walk(e)):
                writes.setdefault(i["id"], f)
            for x in walk(e):
                if x["k"] == "mem" and x.get("id") in fields:
                    reads.setdefault(x["id"], f)
        lhs = set()
        for e in body_exprs(f):
            if e["k"] == "assign" and e.get("op", "=") == "=":
                x = strip(e["x"])
                if x["k"] == "mem" and x.get("id") in fields:
                    lhs.add(id(x))
                    if setter and any(y["k"] == "ref" and y.get("id") in pn for y in walk(e["y"])):
                        writes.setdefault(x["id"], f)
            if e["k"] == "delete":
                lhs |= {id(x) for x in walk(e["e"])}
        for s in stmts(f["body"]):
            if s["k"] == "expr":
                # a member named on its own, or cast to void, is not looked at
                x = strip(s["e"])
                while x is not None and x["k"] == "cast":
                    x = strip(x["e"])
                if x is not None and x["k"] == "mem":
                    lhs.add(id(x))
        for e in body_exprs(f):
            if e["k"] == "mem" and e.get("id") in fields and id(e) not in lhs:
                reads.setdefault(e["id"], f)
    tmpl = set()
    for f in P.templates:
        for e in body_exprs(f) if f.get("body") else ():
            if e.get("n"):
                tmpl.add(e["n"])
    for i, f in sorted(writes.items()):
        R.count("settings")
        n, fl, r = fields[i]
        if i not in reads and fl["n"] not in tmpl:
            R.violation("%s:%s:ignored" % (n, fl["n"]), loc(f), "the setting %s is accepted, and then never looked at" % fl["n"], f["name"])


def casts(P, R):
    done = set()
    for f in P.funcs:
        if f.get("body") is None:
            continue
        pn = {p["id"] for p in f["params"]}
        cfg = None
        for e in body_exprs(f):
            if not (e["k"] == "cast" and e.get("ck") == "Dynamic" and e.get("t", "*").endswith("*")):
                continue
            if not any(x["k"] == "ref" and x.get("id") in pn for x in walk(e)):
                continue
            if (f["name"], e["l"]) in done:
                continue
            done.add((f["name"], e["l"]))
            R.count("argument_casts")
            cfg = cfg or cfg_of(f, P)
            start = next((n for n in cfg.nodes if n.e is not None and any(x is e for x in walk(n.e))), None)
            if start is None:
                continue
            tgt = None
            if start.kind == "decl":
                tgt = start.var["n"]
            else:
                for x in walk(start.e):
                    if x["k"] == "assign" and any(y is e for y in walk(x["y"])):
                        tgt = show(strip(x["x"]))
            if start.kind == "branch" or tgt is None and any(x["k"] in ("bin", "un") for x in walk(start.e)):
                continue
            # follow the failed cast
            names = {tgt, None} - {None}
            seen, work, bad = set(), [m for m, l in start.succ], False
            while work:
                n = work.pop()
                if n.id in seen or n is cfg.abort:
                    continue
                seen.add(n.id)
                if n is cfg.exit:
                    bad = True
                    break
                if n.kind == "branch" and n.e is not None and tgt:
                    v = null_test(n.e, tgt)
                    if v is not None:
                        work += [m for m, l in n.succ if l == v]
                        continue
                work += [m for m, l in n.succ]
            if bad:
                R.violation("%s:cast" % key_of(f), loc(f, e["l"]), "an argument of another kind is not rejected (the result of dynamic_cast is not tested)", f["name"])


def null_test(c, tgt):
    """The branch taken when tgt is null."""
    c = strip(c)
    if c["k"] == "un" and c["op"] == "!":
        v = null_test(c["e"], tgt)
        return None if v is None else not v
    if c["k"] in ("bin",) and c["op"] in ("==", "!="):
        for a, b in ((c["x"], c["y"]), (c["y"], c["x"])):
            b = strip(b)
            if show(strip(a)) == tgt and (b["k"] == "null" or b["k"] == "int" and b["v"] == 0):
                return c["op"] == "=="
    if show(c) == tgt:
        return False
    return None


def solvers(P, R):
    def is_solver(c, d=0):
        r = P.records.get(c)
        if c == "mfem::Solver":
            return True
        return r is not None and d < 6 and any(is_solver(b, d + 1) for b in r["bases"])
    for f in P.funcs:
        if f.get("cls") and f["name"].endswith("::Mult") and is_solver(f["cls"]):
            R.count("solver_mults")
            if not any(e["k"] == "mem" and e["n"] == "iterative_mode" for e in body_exprs(f)) and reaches_exit(f, P, noreturn_funcs(P)):
                R.violation("%s:iterative_mode" % key_of(f), loc(f), "the solver does not look at iterative_mode", f["name"])


MIN = {"routines": 500, "stops_always": 20, "settings": 100, "output_parameters": 100}

if __name__ == "__main__":
    import sys
    sys.exit(main("C16", run, MIN))
