"""Helpers over the dumped trees: traversal, printing, control-flow graphs."""

CH = {  # expression children, in evaluation order
    "mem": ["b"], "mcall": ["obj", "a"], "opcall": ["a"], "call": ["fn", "a"], "ctor": ["a"],
    "new": ["size", "init"], "delete": ["e"], "un": ["e"], "bin": ["x", "y"], "assign": ["y", "x"],
    "cond": ["c", "x", "y"], "sub": ["x", "y"], "cast": ["e"], "ilist": ["a"], "other": ["a"],
    "dmem": ["b"], "uctor": ["a"], "throw": ["e"],
}


def kids(e):
    for k in CH.get(e["k"], ()):
        v = e.get(k)
        if v is None:
            continue
        if isinstance(v, list):
            for x in v:
                if x is not None:
                    yield x
        else:
            yield v


def walk(e):
    """All sub-expressions, children before parents (evaluation order); not into lambdas."""
    if e is None:
        return
    for c in kids(e):
        yield from walk(c)
    yield e


def stmts(s):
    """All statements, pre-order."""
    if s is None:
        return
    yield s
    k = s["k"]
    if k == "block":
        for x in s["s"]:
            yield from stmts(x)
    elif k == "if":
        yield from stmts(s.get("init"))
        yield from stmts(s["th"])
        yield from stmts(s["el"])
    elif k in ("for", "while", "do", "rfor", "switch", "try"):
        yield from stmts(s.get("init"))
        yield from stmts(s["body"])
        for h in s.get("h", []):
            yield from stmts(h)
    elif k in ("case", "default", "label"):
        yield from stmts(s["s"])


def stmt_exprs(s):
    """The expressions directly in a statement (not nested statements)."""
    k = s["k"]
    if k == "expr":
        yield s["e"]
    elif k == "decl":
        for v in s["v"]:
            if v.get("init"):
                yield v["init"]
    elif k == "if":
        if s.get("cvar") and s["cvar"].get("init"):
            yield s["cvar"]["init"]
        yield s["c"]
    elif k == "for":
        if s["c"]:
            yield s["c"]
        if s["inc"]:
            yield s["inc"]
    elif k in ("while", "do", "switch"):
        yield s["c"]
    elif k == "rfor":
        yield s["range"]
    elif k == "return":
        if s["e"]:
            yield s["e"]
    elif k == "case":
        yield s["v"]


def body_exprs(f):
    """All expressions in a function (including constructor initialisers and lambdas)."""
    for i in f.get("inits", []):
        if i.get("e"):
            yield from walk_l(i["e"])
    for s in stmts(f["body"]):
        for e in stmt_exprs(s):
            if e is not None:
                yield from walk_l(e)


def walk_l(e):
    for x in walk(e):
        yield x
        if x["k"] == "lambda":
            for s in stmts(x["body"]):
                for y in stmt_exprs(s):
                    if y is not None:
                        yield from walk_l(y)


def strip(e):
    while e is not None and e["k"] == "cast":
        e = e["e"]
    return e


def show(e, d=0):
    if e is None:
        return ""
    k = e["k"]
    s = lambda x: show(x, d + 1)
    if d > 12:
        return "..."
    if k in ("int", "float"):
        return str(e["v"])
    if k == "bool":
        return "true" if e["v"] else "false"
    if k == "str":
        return '"%s"' % e["v"]
    if k == "null":
        return "NULL"
    if k == "this":
        return "this"
    if k == "ref":
        return e["n"]
    if k == "mem":
        b = e["b"]
        return e["n"] if b is None or b["k"] == "this" else s(b) + ("->" if e.get("arrow") else ".") + e["n"]
    if k == "mcall":
        n = e.get("callee", "?").split("::")[-1]
        o = e["obj"]
        a = ", ".join(s(x) for x in e["a"])
        return ("" if o is None or o["k"] == "this" else s(o) + ("->" if e.get("arrow") else ".")) + "%s(%s)" % (n, a)
    if k == "opcall":
        a = e["a"]
        if e["op"] == "()":
            return "%s(%s)" % (s(a[0]), ", ".join(s(x) for x in a[1:]))
        if e["op"] == "[]":
            return "%s[%s]" % (s(a[0]), s(a[1]))
        if len(a) == 2:
            return "%s %s %s" % (s(a[0]), e["op"], s(a[1]))
        return e["op"] + s(a[0])
    if k == "call":
        n = e.get("callee", s(e.get("fn"))).split("::")[-1]
        return "%s(%s)" % (n, ", ".join(s(x) for x in e["a"]))
    if k == "ctor":
        if len(e["a"]) == 1:
            return s(e["a"][0])
        return "%s(%s)" % (e["cls"].split("::")[-1], ", ".join(s(x) for x in e["a"]))
    if k == "new":
        return "new " + e["at"].split("::")[-1]
    if k == "delete":
        return "delete " + s(e["e"])
    if k == "un":
        return s(e["e"]) + e["op"] if e["post"] else e["op"] + s(e["e"])
    if k in ("bin", "assign"):
        return "(%s %s %s)" % (s(e["x"]), e["op"], s(e["y"])) if k == "bin" else "%s %s %s" % (s(e["x"]), e["op"], s(e["y"]))
    if k == "cond":
        return "(%s ? %s : %s)" % (s(e["c"]), s(e["x"]), s(e["y"]))
    if k == "sub":
        return "%s[%s]" % (s(e["x"]), s(e["y"]))
    if k == "cast":
        return s(e["e"])
    if k == "ilist":
        return "{%s}" % ", ".join(s(x) for x in e["a"])
    return k


NORETURN = {"mfem::mfem_error", "exit", "abort", "_exit", "std::exit", "std::abort", "std::terminate",
            "__assert_fail", "MPI_Abort", "quick_exit"}


def is_noreturn_call(e):
    return e["k"] in ("call", "mcall") and (e.get("noreturn") or e.get("callee") in NORETURN)


def as_assert(e):
    """The condition of an assert() expansion, or None."""
    if e is not None and e["k"] == "cond":
        y = strip(e["y"])
        if y is not None and y["k"] == "call" and y.get("callee") == "__assert_fail":
            return e["c"]
    return None


class Node:
    __slots__ = ("id", "kind", "e", "var", "succ", "line", "stmt")
    # kind: expr (e), decl (var), branch (e: condition; succ [(node, True/False)]), nop, exit, abort,
    # return (e), scope_end

    def __init__(self, id, kind, e=None, line=0):
        self.id, self.kind, self.e, self.line = id, kind, e, line
        self.var = None
        self.stmt = None
        self.succ = []


class CFG:
    """Statement-level control-flow graph. Conditions are split at &&, || and !; assert(c) is a branch
    to abort. Calls that never return lead to abort."""

    def __init__(self, body, noreturn=lambda e: False, params=()):
        self.nodes = []
        self.entry = self.new("nop")
        self.exit = self.new("exit")
        self.abort = self.new("abort")
        self.nr = noreturn
        self.labels, self.gotos = {}, []
        end = self.stmt(body, [(self.entry, None)], None, None)
        self.link(end, self.exit)
        for src, lab, name in self.gotos:
            if name in self.labels:
                self.link([(src, lab)], self.labels[name])

    def new(self, kind, e=None, line=0):
        n = Node(len(self.nodes), kind, e, line)
        self.nodes.append(n)
        return n

    def link(self, ends, node):
        for n, lab in ends:
            n.succ.append((node, lab))

    def simple(self, kind, e, ends, line, var=None):
        n = self.new(kind, e, line)
        n.var = var
        self.link(ends, n)
        if e is not None:
            for x in walk(e):
                if is_noreturn_call(x) or (x["k"] in ("call", "mcall") and self.nr(x)):
                    # inside a conditional expression it may not be executed
                    if not conditional_in(e, x):
                        self.link([(n, None)], self.abort)
                        return []
                if x["k"] == "throw":
                    self.link([(n, None)], self.abort)
                    return []
        return [(n, None)]

    def cond(self, c, ends):
        """Returns (true_ends, false_ends)."""
        c0 = strip(c)
        if c0 is None:
            return ends, []
        if c0["k"] == "bin" and c0["op"] in ("&&", "||"):
            t1, f1 = self.cond(c0["x"], ends)
            if c0["op"] == "&&":
                t2, f2 = self.cond(c0["y"], t1)
                return t2, f1 + f2
            t2, f2 = self.cond(c0["y"], f1)
            return t1 + t2, f2
        if c0["k"] == "un" and c0["op"] == "!":
            t, f = self.cond(c0["e"], ends)
            return f, t
        if c0["k"] in ("bool", "int"):
            return (ends, []) if c0["v"] else ([], ends)
        n = self.new("branch", c0, c0.get("l", 0))
        self.link(ends, n)
        return [(n, True)], [(n, False)]

    def stmt(self, s, ends, brk, cont):
        if s is None:
            return ends
        k = s["k"]
        if k == "block":
            decls = []
            for x in s["s"]:
                ends = self.stmt(x, ends, brk, cont)
            return ends
        if k == "expr":
            a = as_assert(strip(s["e"]))
            if a is not None:
                t, f = self.cond(a, ends)
                for n, _ in t + f:
                    n.stmt = n.stmt or "assert"
                self.link(f, self.abort)
                return t
            e = s["e"]
            if e["k"] == "cond" and has_call(e):
                t, f = self.cond(e["c"], ends)
                return self.simple("expr", e["x"], t, s["l"]) + self.simple("expr", e["y"], f, s["l"])
            return self.simple("expr", e, ends, s["l"])
        if k == "decl":
            for v in s["v"]:
                ends = self.simple("decl", v.get("init"), ends, v["l"], var=v)
            return ends
        if k == "return":
            n = self.new("return", s["e"], s["l"])
            self.link(ends, n)
            if s["e"] is not None and any(is_noreturn_call(x) for x in walk(s["e"])):
                self.link([(n, None)], self.abort)
            else:
                self.link([(n, None)], self.exit)
            return []
        if k == "if":
            ends = self.stmt(s.get("init"), ends, brk, cont)
            if s.get("cvar"):
                ends = self.simple("decl", s["cvar"].get("init"), ends, s["l"], var=s["cvar"])
            t, f = self.cond(s["c"], ends)
            a = self.stmt(s["th"], t, brk, cont)
            b = self.stmt(s["el"], f, brk, cont)
            return a + b
        if k in ("for", "while", "rfor", "do"):
            head = self.new("nop", None, s["l"])
            out, cn = [], self.new("nop", None, s["l"])
            if k == "for":
                ends = self.stmt(s.get("init"), ends, brk, cont)
                self.link(ends, head)
                if s["c"] is not None:
                    t, f = self.cond(s["c"], [(head, None)])
                else:
                    t, f = [(head, None)], []
                e = self.stmt(s["body"], t, out, cn)
                self.link(e, cn)
                ie = [(cn, None)]
                if s["inc"] is not None:
                    ie = self.simple("expr", s["inc"], ie, s["l"])
                self.link(ie, head)
                return f + out
            if k == "while":
                self.link(ends, head)
                t, f = self.cond(s["c"], [(head, None)])
                e = self.stmt(s["body"], t, out, cn)
                self.link(e, cn)
                self.link([(cn, None)], head)
                return f + out
            if k == "do":
                self.link(ends, head)
                e = self.stmt(s["body"], [(head, None)], out, cn)
                self.link(e, cn)
                t, f = self.cond(s["c"], [(cn, None)])
                self.link(t, head)
                return f + out
            ends = self.simple("expr", s["range"], ends, s["l"])
            self.link(ends, head)
            b = self.new("branch", None, s["l"])
            b.stmt = "rfor"
            self.link([(head, None)], b)
            e = self.simple("decl", None, [(b, True)], s["l"], var=s["var"])
            e = self.stmt(s["body"], e, out, cn)
            self.link(e, cn)
            self.link([(cn, None)], head)
            return [(b, False)] + out
        if k == "switch":
            sw = self.new("branch", s["c"], s["l"])
            sw.stmt = "switch"
            self.link(ends, sw)
            out = []
            state = {"default": False}
            cur = []
            body = s["body"]["s"] if s["body"] and s["body"]["k"] == "block" else [s["body"]]
            for x in body:
                while x is not None and x["k"] in ("case", "default"):
                    if x["k"] == "case":
                        cur = cur + [(sw, ("case", x["v"]))]
                    else:
                        cur = cur + [(sw, ("default",))]
                        state["default"] = True
                    x = x["s"]
                cur = self.stmt(x, cur, out, cont)
            res = cur + out
            if not state["default"]:
                res = res + [(sw, ("default",))]
            return res
        if k == "break":
            n = self.new("nop", None, s["l"])
            self.link(ends, n)
            if brk is not None:
                brk.append((n, None))
            return []
        if k == "continue":
            self.link(ends, cont) if cont is not None else None
            return []
        if k == "label":
            n = self.new("nop", None, s["l"])
            self.link(ends, n)
            self.labels[s["n"]] = n
            return self.stmt(s["s"], [(n, None)], brk, cont)
        if k == "goto":
            for n, lab in ends:
                self.gotos.append((n, lab, s["n"]))
            return []
        if k == "try":
            e = self.stmt(s["body"], ends, brk, cont)
            for h in s["h"]:
                e = e + self.stmt(h, list(ends), brk, cont)
            return e
        return ends


def has_call(e):
    return any(x["k"] in ("call", "mcall", "opcall", "ctor", "new", "delete") for x in walk(e))


def conditional_in(root, target):
    """Is `target` below a ?:, && or || operand of root that may be skipped?"""
    def find(e, cond):
        if e is target:
            return cond
        if e["k"] == "cond":
            for key, c in (("c", cond), ("x", True), ("y", True)):
                r = find(e[key], c)
                if r is not None:
                    return r
            return None
        if e["k"] == "bin" and e["op"] in ("&&", "||"):
            r = find(e["x"], cond)
            return r if r is not None else find(e["y"], True)
        for c in kids(e):
            r = find(c, cond)
            if r is not None:
                return r
        return None
    return bool(find(root, False))


_nr_cache = {}


def noreturn_funcs(P):
    """Functions of /repo none of whose paths reach the exit."""
    if id(P) in _nr_cache:
        return _nr_cache[id(P)]
    nr = set()
    changed = True
    while changed:
        changed = False
        for f in P.funcs:
            k = (f["id"], f["type"])
            if k in nr or f.get("virtual"):
                continue
            if not reaches_exit(f, P, nr):
                nr.add(k)
                changed = True
    _nr_cache[id(P)] = nr
    return nr


def reaches_exit(f, P, nr):
    c = CFG(f["body"], lambda e: (e.get("cid"), e.get("cty")) in nr)
    seen, todo = {c.entry.id}, [c.entry]
    while todo:
        n = todo.pop()
        if n is c.exit:
            return True
        for m, _ in n.succ:
            if m.id not in seen:
                seen.add(m.id)
                todo.append(m)
    return False


def cfg_of(f, P):
    if "_cfg" not in f:
        nr = noreturn_funcs(P)
        f["_cfg"] = CFG(f["body"], lambda e: (e.get("cid"), e.get("cty")) in nr)
    return f["_cfg"]


def fname(f):
    return f["name"]


def loc(f, line=None):
    return "%s:%d" % (f["file"], line if line else f["line"])
