"""Runs the abstract interpreter over the assembly and evaluation routines of the integrators."""
import os, re, time
from . import term as T
from .term import P, Poly, Atom, ZERO, ONE, atom, subst
from .absint import *
from .absint import P1
from .mfemodel import M, vsize, mdim, vget, mget, vbuf, maddr
from .ir import fname

FILES = ("hyperreduction_integ", "interfaceinteg", "nonlinear_integ", "dg_linear", "dg_bilinear", "dg_mixed_bilin")
ENTRY = re.compile(r"^(AddAssemble\w+_Fast|Assemble(Element|Face|Interface|Quadrature)(Vector|Grad|Matrix)|AssembleRHSElementVect)$")

KIND = [("mfem::FiniteElement", "el"), ("mfem::FaceElementTransformations", "tr"), ("mfem::ElementTransformation", "tr"),
        ("mfem::IntegrationPoint", "ip"), ("mfem::Vector", "vec"), ("mfem::DenseMatrix", "mat"),
        ("mfem::EQPSample", "eqp")]


class Entry:
    def __init__(self, f):
        self.f = f
        self.name = f["name"]
        self.cls = f["cls"]
        self.short = f["name"].split("::")[-1]
        self.roles()

    def roles(self):
        """parameter id -> (canonical name, is output)"""
        n = {}
        self.par = []
        for p in self.f["params"]:
            b, stars, ref, const = ty(p["t"])
            kind = next((k for c, k in KIND if b == c), None)
            if kind is None:
                if b in FLOATS:
                    kind = "iw"
                elif b.startswith("mfem::Array2D<"):
                    kind = "mats"
                else:
                    kind = b.split("::")[-1]
            out = kind in ("vec", "mat", "mats") and not const
            if out:
                kind = "out" + kind
            n[kind] = n.get(kind, 0) + 1
            self.par.append((p, "%s%d" % (kind, n[kind]), out))

    @property
    def sig(self):
        return tuple(nm for p, nm, o in self.par)

    def __repr__(self):
        return "%s(%s)" % (self.name.replace("mfem::", ""), ",".join(self.sig))


def entries(prog):
    out = []
    for f in prog.funcs:
        if f["file"].split("/")[-1].split(".")[0] not in FILES or not f.get("cls"):
            continue
        if ENTRY.match(f["name"].split("::")[-1]) and f.get("body"):
            out.append(Entry(f))
    return out


class Run:
    """One configuration of one entry."""
    def __init__(self, entry, I, ok, outs, this):
        self.entry, self.I, self.ok, self.outs, self.this = entry, I, ok, outs, this
        self.cond = [(k, v) for k, v in I.trace]

    def label(self):
        return ", ".join(("" if v else "not ") + k.s for k, v in self.cond) or "always"


def run_entry(prog, entry, limit=200):
    """[Run], or raises Unsupported"""
    holder = {}

    def make(script):
        I = Interp(prog, script, M)

        def thunk():
            this = Obj(entry.cls, atom("this"), 0, 0)
            fr = Frame(entry.f, this)
            outs = {}
            for p, nm, out in entry.par:
                b, stars, ref, const = ty(p["t"])
                a = atom("par", nm)
                v = I.symbolic(b + (" *" * stars), a)
                if not isinstance(v, Obj):
                    v = Cell(v, 0, 0, p["n"], p["t"])
                fr.vars[p["id"]] = v
                if out:
                    outs[nm] = v
            I.run(fr)
            return outs, this
        return I, thunk
    res = []
    for I, r in explore(make, limit):
        res.append(Run(entry, I, r is not None, r[0] if r else None, r[1] if r else None))
    return res


def probes(I, size):
    """Index forms covering 0..size: [(label, index poly, {name: fv})] by the structure of the size."""
    size = T.simplify(I.norm(size))
    blocks = []
    off = ZERO
    for mo, c in sorted(size.m.items(), key=lambda kv: [a.s for a, e in kv[0]]):
        fac = []
        for a, e in mo:
            fac += [a] * e
        if c != 1:
            if c.denominator != 1 or c < 0:
                raise Unsupported("output size")
            fac.append(int(c))
        # fastest index: number of degrees of freedom
        fac.sort(key=lambda a: (isinstance(a, int), not (isinstance(a, Atom) and a.op == "GetDof"), repr(a)))
        stride = ONE
        idx = off
        vs = []
        for k, a in enumerate(fac):
            n = P(a)
            f = T.fresh_fv(n, "ijklm"[k])
            idx = idx + stride * P(f)
            stride = stride * n
            vs.append(f)
        blocks.append((idx, vs, mo))
        off = off + Poly({mo: c})
    return blocks


if __name__ == "__main__":
    import sys
    from .front import load
    prog = load()
    pat = sys.argv[1] if len(sys.argv) > 1 else ""
    for e in entries(prog):
        if pat not in repr(e):
            continue
        t0 = time.time()
        try:
            rs = run_entry(prog, e)
            print("OK   %-90s configs %d (aborting %d) %.1fs" % (e, len(rs), sum(not r.ok for r in rs), time.time() - t0))
            if "-v" in sys.argv:
                for r in rs:
                    if r.ok:
                        print("   [%s]" % r.label())
                        for nm, o in r.outs.items():
                            if o.cls == VEC:
                                n = vsize(r.I, o)
                                print("     ", nm, "size", n)
                                for idx, vs, mo in probes(r.I, n):
                                    v = T.canon(vget(r.I, o, idx))
                                    print("       at", idx, "=")
                                    for m, c in v.m.items():
                                        print("          ", Poly({m: c}))
                            elif o.cls == MAT:
                                h, w = mdim(r.I, o)
                                print("     ", nm, "size", h, "x", w)
                                for i1, v1, m1 in probes(r.I, h):
                                    for i2, v2, m2 in probes(r.I, w):
                                        v = T.canon(mget(r.I, o, i1, i2))
                                        print("       at", i1, ";", i2, "=")
                                        for m, c in v.m.items():
                                            print("          ", Poly({m: c}))
        except Unsupported as ex:
            print("UNSUPPORTED %-80s %s" % (e, ex))
            if "-t" in sys.argv:
                import traceback
                traceback.print_exc()
        sys.stdout.flush()
