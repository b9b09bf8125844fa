"""State of the parameterised problems after construction and after a change of parameters (shared by C06 and C07)."""
import re
from . import eff
from .eff import show, leaves, I

BASE = "ParameterizedProblem"
THIS = ("this",)


def bases(prog, cls):
    out = []
    for b in (prog.records.get(cls) or {}).get("bases", []):
        b = b if isinstance(b, str) else b.get("t", b.get("n"))
        out += [b] + bases(prog, b)
    return out


def ctor(prog, cls):
    fs = [f for f in prog.by_name.get("%s::%s" % (cls, cls.split("::")[-1]), [])
          if f.get("kind") == "ctor" or f["name"].split("::")[-1] == cls.split("::")[-1]]
    fs = [f for f in fs if f.get("body") and not f.get("implicit") and not any(
        cls in p["t"] and "&" in p["t"] for p in f["params"])]
    return fs[0] if fs else None


def problems(prog):
    """[(class, constructor)] of the concrete problems."""
    out = []
    for cls, r in sorted(prog.records.items()):
        if BASE in bases(prog, cls) and not r.get("abstract") and ctor(prog, cls):
            out.append((cls, ctor(prog, cls)))
    return out


def inline(f, e):
    return "YAML" not in f["name"] and "InputParser" not in f["name"]


def stopped(w):
    raise eff.Undecided("construction depends on something unknown")


class State:
    """What an object holds."""

    def __init__(self, w, this=THIS):
        self.w, self.this = w, this

    def f(self, name):
        return ("fld", self.this, name)

    def size(self, name):
        s = self.w.arrsize(self.f(name))
        return s[1] if s is not None and s[0] == "int" else None

    def known_size(self, name):
        return self.size(name) is not None

    def at(self, name, i):
        """Value of an element, None when it was never set."""
        a = ("idx", self.f(name), I(i))
        v = self.w.read(a)
        return None if v == a else v

    def scalar(self, name):
        v = self.w.read(self.f(name))
        return v

    def map(self, name):
        d = {}
        for k in self.w.kidsof.get(self.f(name), ()):
            if k[0] == "idx" and k[1] == self.f(name):
                d[k[2]] = self.w.store.get(k)
        return d


def built(prog, cls, f):
    """Paths of the constructor with their final state."""
    ps = eff.walks(prog, f, THIS, cls, inline=inline)
    for p in ps:
        p.state = State(p.walk)
    return ps


def setter_paths(prog, cls, cf, g, script=()):
    """Paths of a member function of an object just constructed."""
    def prepare(w):
        script0, w.script = w.script, []
        w.run(cf, THIS, [])
        if w.used:
            raise eff.Undecided("construction depends on something unknown")
        w.script = script0
        w.events.clear()
        # anything the parameters refer to may have been changed since
        for d in (w.store, w.fill, w.size):
            for k in [k for k in d if w.root(k)[0] == "glob" and not is_const_global(prog, w.root(k))]:
                d.pop(k)
    ps = eff.walks(prog, g, THIS, cls, inline=inline, prepare=prepare)
    for p in ps:
        p.state = State(p.walk)
    return ps


def is_const_global(prog, a):
    return bool((prog.globals.get(a[1]) or {}).get("const"))


def setters(prog, cls, name="SetParams"):
    """The overloads a call on an object of this class reaches."""
    out = {}
    for c in [cls] + bases(prog, cls):
        for f in prog.by_name.get("%s::%s" % (c, name), []):
            if f.get("body"):
                out.setdefault(f["type"], f)
    return list(out.values())


def overruns(p, root=THIS):
    """Element writes past the end of an array whose size is known at that point."""
    for e in p.events:
        if getattr(e, "overrun", None):
            yield e
