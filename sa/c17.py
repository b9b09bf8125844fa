"""C17: required settings must be present; look-ups never change the settings.

Every look-up of the settings (all instantiations) is walked symbolically with creation of entries switched off: which node is
asked for, what is returned when it is defined and when it is not, and every operation on the tree of settings that can change it.
"""
import sys
from . import eff
from .c06 import mentions, short
from .eff import show, I, Undecided
from .report import main

CLS = "InputParser"
CORE = CLS + "::FindNodeFromDict"
CHANGES = ("operator=", "push_back", "remove", "SetTag", "SetStyle", "force_insert", "SetType")
READS = ("Size", "size", "IsNull", "IsMap", "IsScalar", "IsSequence", "Type")


def lookups(prog):
    for n, fs in sorted(prog.by_name.items()):
        if n.startswith(CLS + "::") and n.split("::")[-1].startswith(("Get", "Find", "LookUp")):
            for f in fs:
                if f.get("body"):
                    yield f


def tree(t):
    """A term that stands for a node of the settings."""
    return mentions(t, ("fld", ("this",), "dict_")) or any(isinstance(x, tuple) and x[:1] == ("par",) and "dict" in x[1] for x in sub(t)) \
        or any(isinstance(x, tuple) and x[:1] == ("call",) and x[1] == CORE for x in sub(t))


def sub(t):
    yield t
    if isinstance(t, tuple):
        for x in t:
            if isinstance(x, tuple):
                yield from sub(x)


def defined(p, node):
    """Whether a path has established that a node is defined: True, False, or None."""
    for t, v in p.used:
        if t[0] == "call" and len(t) > 2 and t[2] == node:
            if short(t) in ("operator bool", "IsDefined", "operator YAML::Node::unspecified_bool_type", "operator unspecified_bool_type"):
                return v
            if short(t) == "operator!":
                return not v
            if short(t) == "IsNull" and v:
                return True
    return None


def nodes_of(t):
    """The nodes looked up inside a term."""
    return [x for x in sub(t) if isinstance(x, tuple) and x[:1] == ("call",) and len(x) > 2 and
            (x[1] == CORE or short(x) == "operator[]" and "YAML::Node" in x[1])]


def check(prog, R, f):
    pars = {}
    for q in f["params"]:
        if q["t"] == "bool" and q["n"] == "create":
            pars[q["n"]] = I(0)
    core = f["name"] == CORE
    try:
        ps = eff.walks(prog, f, params=pars, inline=lambda g, e: g["name"] != CORE and g["name"].startswith(CLS) or not g["name"].startswith(("YAML", CLS)),
                       limit=300)
    except Undecided as ex:
        R.note("undecided: %s: %s" % (f["name"], ex))
        return

    def bad(what, msg, line=None):
        R.violation("%s:%s" % (f["name"], what), "%s:%s" % (f["file"], line or f["line"]), msg, f["name"])
    R.count("lookups")
    name = f["name"].split("::")[-1]
    for p in ps:
        R.count("paths")
        for e in p.events:
            if e.kind == "write":
                if e.recv == ("fld", ("this",), "dict_"):
                    bad("overwrites", "a look-up replaces the settings", e.line)
                continue
            r = getattr(e, "recv_addr", None)
            r = p.walk.content(r) if r is not None else e.recv
            if e.short in ("SetOption", "SetOptionInDict", "OverwriteOption"):
                bad("sets", "a look-up sets an option", e.line)
            if r is None or "YAML::Node" not in (e.name or "") or not tree(e.recv):
                continue
            R.count("node_operations")
            if e.short in CHANGES:
                bad("changes:" + e.short, "a look-up changes a node of the settings (%s)" % e.short, e.line)
            elif e.short == "operator[]" and (e.e or {}).get("cconst") is not True and e.args and not number(e.args[0], p):
                node = ("call", e.name, e.recv, e.args[0])
                if not any(defined(p, n) for n in (node, ("call", e.name, e.recv) + tuple(e.args))):
                    bad("converts", "operator[] of a node that may not be changed: looking up an absent key through it turns a null or "
                        "list node into a map", e.line)
            elif e.name == CORE:
                pass
        for e in p.events:
            if e.kind == "call" and e.name == CORE:
                R.count("node_lookups")
                c = e.args[2] if len(e.args) > 2 else I(0)
                if c != I(0):
                    bad("creates", "a look-up creates the entry it does not find", e.line)
        if p.abort or p.ret is None:
            continue
        ret = p.walk.content(p.ret)
        if core:
            R.count("obligations")
            und = [(t, v) for t, v in p.used if nodes_of(t)]
            if und and und[-1][0][0] == "call" and len(und[-1][0]) > 2:
                node = und[-1][0][2]
                d = defined(p, node)
                if d is False and ret != node and tree(ret) and not mentions(ret, node):
                    bad("missing", "for a key that is not there the node returned is %s" % show(ret))
                if d and nodes_of(node) and ret != node and tree(ret) and not mentions(ret, node):
                    bad("returned", "the node returned is %s, not the one found" % show(ret))
            continue
        if name.startswith("Get"):
            ns = [x for x in nodes_of(ret) if x[1] == CORE]
            asked = [e for e in p.events if e.kind == "call" and e.name == CORE]
            if len(asked) != 1:
                R.note("undecided: %s asks for %d nodes" % (name, len(asked)))
                continue
            node = ("call", CORE, asked[0].recv) + tuple(asked[0].args)
            R.count("obligations", 2)
            if asked[0].args and asked[0].args[0] != ("par", f["params"][0]["n"]) and spelled(asked[0].args[0]):
                bad("key", "the key looked up is %s" % show(asked[0].args[0]))
            d = defined(p, node)
            if "Required" in name:
                if d is False:
                    bad("absent", "a required setting that is absent is taken for %s" % show(ret))
                elif d and not ns:
                    bad("value", "a required setting that is present is taken for %s" % show(ret))
            else:
                fb = [q["n"] for q in f["params"] if "fallback" in q["n"] or "default" in q["n"]] or [f["params"][1]["n"]]
                fb = ("par", fb[0])
                if d is False and ret != fb:
                    bad("absent", "the value of an absent setting is %s, not the default" % show(ret))
                elif d and not ns:
                    bad("value", "a setting that is present is taken for %s" % show(ret))
                elif d is None and ret == fb:
                    bad("default", "the default is returned although the setting may be present")
        elif name.startswith("LookUp") and len(f["params"]) > 3:
            R.count("obligations")
            fb = ("par", f["params"][3]["n"])
            hit = [v for t, v in p.used if t[0] == "==" or t[0] == "call" and short(t).startswith("operator==")]
            if hit and not any(hit) and ret != fb and not nodes_of(ret) and ret[0] == "par":
                bad("default", "without a match the value is %s" % show(ret))


# settings without which there is nothing to compute: {class or routine: keys}
REQUIRED = {
    "AdvDiffSolver": ["adv-diff/flow_file"],
    "mfem::MFEMROMHandler": ["basis/visualization/prefix"],
    "mfem::ROMHandlerBase": ["model_reduction/save_operator/prefix"],
    "ComponentTopologyHandler": ["comp1/attr", "comp1/name", "comp2/attr", "comp2/name", "comp2_configuration", "name",
                                 "mesh/component-wise/bdr_config", "mesh/component-wise/global_config"],
    "SubMeshTopologyHandler": ["mesh/filename"],
    "FilenameParam": ["format"],
    "DoubleParam": ["maximum", "minimum"],
    "IntegerParam": ["maximum", "minimum"],
    "SampleGenerator": ["key", "type", "sample_size"],
    "RandomSampleGenerator": ["sample_generation/random_sample_generator/number_of_samples"],
    "SteadyNSSolver": ["solver/restart_file"],
    "UnsteadyNSSolver": ["solver/restart_file", "time-integration/number_of_timesteps", "time-integration/timestep_size"],
    "ParameterizedProblem": ["parameterized_problem/name"],
    "": ["main/solver", "model_reduction/compare_solution/fom_solution_file", "model_reduction/eqp/save_coords",
         "model_reduction/save_linear_system/prefix"],
}
NODES = ["ComponentTopologyHandler|mesh/component-wise/components", "SampleGenerator|*", "ParameterizedProblem|*"]


def key_of(e):
    while e is not None and e["k"] in ("ctor", "uctor", "cast", "paren", "tmp"):
        e = (e["a"][0] if e["a"] else None) if "a" in e else e["e"]
    return e["v"] if e is not None and e["k"] == "str" else None


def required(prog, R):
    """Every setting that must be present is asked for in the way that stops when it is absent."""
    import sa.ir as ir
    for f in prog.funcs:
        if not f.get("body") or f["name"].startswith(CLS):
            continue
        cls = f.get("cls") or ""
        es = [e for i in f.get("inits", []) if i.get("e") is not None for e in ir.walk(i["e"])] + list(ir.body_exprs(f))
        want = REQUIRED.get(cls, REQUIRED[""] if not cls else [])
        for e in es:
            if e["k"] not in ("call", "mcall") or not e.get("callee", "").startswith(CLS + "::Get") or not e["a"]:
                continue
            k = key_of(e["a"][0])
            if k is None or k not in want:
                continue
            R.count("required_settings")
            if "Required" not in e["callee"]:
                R.violation("%s:%s" % (cls or f["name"], k), "%s:%s" % (f["file"], e["l"]),
                            "the setting \"%s\" must be present, and is taken for a default when it is not" % k, f["name"])
        nodes(prog, R, f, cls)


def nodes(prog, R, f, cls):
    """A list of settings that must be there: the routine stops when it is not."""
    import sa.ir as ir
    keys = [n.split("|")[1] for n in NODES if n.split("|")[0] == cls]
    if not keys:
        return
    cfg = None
    for n in ir.cfg_of(f, prog).nodes:
        if n.kind != "decl" or n.e is None:
            continue
        e = ir.strip(n.e)
        while e["k"] in ("ctor", "uctor") and e["a"]:
            e = ir.strip(e["a"][0])
        if e["k"] != "mcall" or e.get("callee") != CLS + "::FindNode" or len(e["a"]) > 1 and ir.strip(e["a"][1] or {"k": ""}).get("v") is True:
            continue
        k = key_of(e["a"][0])
        if not (k in keys or "*" in keys and (k is None or k not in ("basis/tags",))):
            continue
        R.count("required_lists")
        cfg = ir.cfg_of(f, prog)
        seen, work, end = set(), [m for m, l in n.succ], False
        while work:
            m = work.pop()
            if m.id in seen or m is cfg.abort:
                continue
            seen.add(m.id)
            if m is cfg.exit:
                end = True
                break
            if m.kind == "branch" and m.e is not None:
                v = absent(m.e, n.var["n"])
                if v is not None:
                    work += [x for x, l in m.succ if l == v]
                    continue
            work += [x for x, l in m.succ]
        if end:
            R.violation("%s:%s" % (f["name"], k or "list"), "%s:%s" % (f["file"], e["l"]), "without the list %s the routine carries on" % (
                k or "of settings"), f["name"])


def absent(c, name):
    """The branch taken when the node is not defined."""
    import sa.ir as ir
    c = ir.strip(c)
    if c["k"] == "un" and c["op"] == "!" or c["k"] == "opcall" and c["op"] == "!":
        x = c["e"] if c["k"] == "un" else c["a"][0]
        v = absent(x, name)
        return None if v is None else not v
    if c["k"] == "bin" and c["op"] == "==" and ir.strip(c["y"])["k"] == "bool":
        v = absent(c["x"], name)
        return v if v is None or ir.strip(c["y"])["v"] else not v
    if c["k"] == "ref" and c["n"] == name:
        return False
    if c["k"] == "mcall" and c.get("obj") is not None and ir.strip(c["obj"]).get("n") == name:
        s = c["callee"].split("::")[-1]
        if s == "IsDefined" or "bool" in s:
            return False
        if s == "operator!":
            return True
    return None


def setters(prog, R):
    """Setting an option creates the entry when needed and stores the given value in it; forced options are all set."""
    inl = lambda g, e: g["name"] != CORE and g["name"].startswith(CLS)
    for n, fs in sorted(prog.by_name.items()):
        if n.startswith(CLS + "::SetOption"):
            for f in fs:
                if f.get("body"):
                    setter(prog, R, f, inl, f["params"][0]["n"], f["params"][1]["n"])
        elif n == CLS + "::OverwriteOption":
            for f in fs:
                if f.get("body"):
                    forced(prog, R, f, inl)


def puts(p):
    """(create flag, key, event, value) of every node looked up and assigned to."""
    for e in p.events:
        if e.kind == "call" and e.name == CORE:
            node = ("call", CORE, e.recv) + tuple(e.args)
            w = [x for x in p.events if x.kind in ("assign", "write") and x.args and (x.recv == node or p.walk.content(x.recv) == node or
                 getattr(x, "recv_addr", None) is not None and p.walk.content(x.recv_addr) == node) or
                 x.kind == "assign" and x.short == "operator=" and len(x.args) == 1 and x.recv and x.recv[0] in ("loc", "var")]
            i = p.events.index(e)
            w = [x for x in w if p.events.index(x) > i]
            yield (e.args[2] if len(e.args) > 2 else I(0)), e.args[0], e, w


def setter(prog, R, f, inl, key, val):
    try:
        ps = eff.walks(prog, f, inline=inl)
    except Undecided as ex:
        R.note("undecided: %s: %s" % (f["name"], ex))
        return
    R.count("setters")

    def bad(what, msg, line=None):
        R.violation("%s:%s" % (f["name"], what), "%s:%s" % (f["file"], line or f["line"]), msg, f["name"])
    for p in ps:
        R.count("paths")
        if p.abort:
            continue
        ss = list(puts(p))
        R.count("obligations")
        if not ss:
            bad("nothing", "a path sets nothing")
        for c, k, e, w in ss:
            if c == I(0) and w:
                bad("create", "the option is set in an entry that is not created when it is absent", e.line)
            if k != ("par", key) and k[0] in ("par", "str"):
                bad("key", "the option set is %s" % show(k), e.line)
            if not w:
                if len(ss) == 1:
                    bad("nothing", "the entry found is not given the value", e.line)
            elif w[-1].args[-1] != ("par", val) and w[-1].args[-1][0] in ("par", "str", "int", "flt"):
                bad("value", "the value stored is %s" % show(w[-1].args[-1]), e.line)


def forced(prog, R, f, inl):
    try:
        ps = eff.walks(prog, f, inline=inl)
    except Undecided as ex:
        R.note("undecided: %s: %s" % (f["name"], ex))
        return
    R.count("setters")

    def bad(what, msg, line=None):
        R.violation("%s:%s" % (f["name"], what), "%s:%s" % (f["file"], line or f["line"]), msg, f["name"])

    def gets(t, sep):
        """The readings up to the separator that a term is made from."""
        return {x[-3:] for x in sub(t) if isinstance(x, tuple) and x[:1] in (("call",), ("out",)) and short(x) == "getline" and x[-1] == I(sep)}
    for p in ps:
        R.count("paths")
        if p.abort:
            continue
        entered = [t for t, v in p.used if v and t[0] == "call" and gets(t, 58) and not gets(t, 61)]
        if not entered:
            continue
        R.count("obligations")
        ss = [x for x in puts(p) if x[3]]
        if not ss:
            bad("skipped", "an option given on the command line is not set on a path")
            continue
        for c, k, e, w in ss:
            v = w[-1].args[-1]
            gk, gv = gets(k, 61), gets(v, 61)
            if not gk or not gv:
                continue
            if len(gk) != 1 or len(gv) != 2:
                bad("order", "the key is part %d and the value part %d of the pair" % (len(gk), len(gv)), e.line)
            yes = {len(gets(t, 61)) for t, val in p.used if gets(t, 61) and val == (short(t) != "operator!")}
            if not {1, 2} <= yes:
                bad("incomplete", "a pair without a value is accepted", e.line)


def number(t, p):
    return t[0] in ("int", "any", "par") or t[0] in ("+", "-") and number(t[1], p)


def spelled(t):
    return t[0] in ("par", "str") or t[0] == "call" and short(t).startswith("operator+")


def run(prog, R):
    R.rule = __doc__.replace("\n", " ")
    for f in lookups(prog):
        check(prog, R, f)
    required(prog, R)
    setters(prog, R)
    # array settings: every element of the list goes to its own position
    for n, fs in sorted(prog.by_name.items()):
        if n.startswith("YAML::convert") and n.endswith("::decode"):
            for f in fs:
                if f.get("body"):
                    decode(prog, R, f)


def decode(prog, R, f):
    try:
        ps = eff.walks(prog, f)
    except Undecided as ex:
        R.note("undecided: %s: %s" % (f["name"], ex))
        return
    R.count("conversions")
    node, rhs = (("par", q["n"]) for q in f["params"][:2])

    def bad(what, msg, line=None):
        R.violation("%s:%s" % (f["name"], what), "%s:%s" % (f["file"], line or f["line"]), msg, f["name"])
    for p in ps:
        R.count("paths")
        for e in p.events:
            if e.kind == "write" and e.recv[0] == "idx" and e.recv[1] == rhs:
                ix = [x[3] for x in nodes_of(e.args[0]) if x[2] == node and len(x) > 3]
                R.count("obligations")
                sp = p.walk.spans.get(e.recv[2])
                if sp and (sp[0] != I(0) or sp[1][0] == "+" and sp[1][2] != I(-1) or
                           sp[1][0] in ("call", "size") and short(sp[1]) in ("Size", "size")):
                    bad("range", "the elements %s to %s are taken from a list of %s" % (show(sp[0]), show(sp[1]), "all its entries"), e.line)
                if ix and e.recv[2] not in ix and ix[0][0] in ("any", "int", "+", "-"):
                    bad("element", "element %s takes entry %s of the list" % (show(e.recv[2]), show(ix[0])), e.line)


if __name__ == "__main__":
    sys.exit(main("C17", run, {"functions_parsed": 100}))
