"""What the mfem routines used by the integrators do, in terms of the abstract domain."""
from . import term as T
from .term import P, Poly, Atom, ZERO, ONE, atom, subst
from .absint import (Interp, Unsupported, Abort, NULL, SymPtr, Ptr, DPtr, Opaque, OPAQUE, Cell, Elem, Obj, Buf,
                     VEC, MAT, INTS, FLOATS, ty, P1, num, is_fl, POISON)

M = {}


def model(*names):
    def reg(f):
        for n in names:
            M[n] = f
        return f
    return reg


def V(*names):
    return model(*["mfem::Vector::" + n for n in names])


def D(*names):
    return model(*["mfem::DenseMatrix::" + n for n in names])


# ------------------------------------------------------------ access
def vsize(I, o):
    return I.get(o.f["size"])


def vbuf(I, o):
    if o.sym:
        pass
    return I.get(o.f["buf"]), I.get(o.f["off"])


def vget(I, o, i):
    b, off = vbuf(I, o)
    return I.norm(I.bread(b, off + i))


def velem(I, o, i):
    b, off = vbuf(I, o)
    return Elem(b, off + i)


def mdim(I, o):
    return I.get(o.f["h"]), I.get(o.f["w"])


def maddr(I, o, r, c):
    h, w = mdim(I, o)
    b, off = vbuf(I, o)
    return b, off + r + (P1(T.sz(h)) * c if c != ZERO else ZERO)


def mget(I, o, r, c):
    b, a = maddr(I, o, r, c)
    return I.norm(I.bread(b, a))


def is_vec(o):
    return isinstance(o, Obj) and o.cls == VEC


def is_mat(o):
    return isinstance(o, Obj) and o.cls in (MAT, "mfem::SparseMatrix")


def fill(I, ranges, fn, kind="set"):
    """fn(indices) -> (buf, addr, val); one indexed write. All values are taken before anything is written."""
    combos = [[]]
    for n in ranges:
        n = T.simplify(I.norm(P(n)))
        c = n.const()
        if c is not None and c <= 6:
            combos = [x + [P(k)] for x in combos for k in range(int(c))]
        else:
            f = T.fresh_fv(n, "k")
            combos = [x + [P(f)] for x in combos]
    todo = []
    for idx in combos:
        r = fn(*idx)
        if r is None:
            continue
        b, a, v = r
        s = {}
        for x in idx:
            y = x.single()
            if y is not None and y.op == "fv":
                s[y] = P(T.fresh_bv(y.args[1]))
        v = T.simplify(v)
        todo.append((b, subst(a, s), subst(v, s)))
    for b, a, v in todo:
        I.bwrite(b, kind, a, v)


def summed(n, fn, I):
    """Sum over k < n of fn(k)"""
    n = T.simplify(I.norm(P(n)))
    c = n.const()
    if c is not None and c <= 6:
        r = ZERO
        for k in range(int(c)):
            r = r + fn(P(k))
        return r
    f = T.fresh_fv(n, "s")
    v = T.simplify(fn(P(f)))
    return T.sum_over(v, f, T.fresh_bv(n), n)


def agree(I, a, b):
    """two sizes must be equal for the operation to be valid"""
    a, b = T.simplify(I.norm(P(a))), T.simplify(I.norm(P(b)))
    if a == b:
        return
    d = P1(T.dlt(a - b))
    if d == ZERO:
        raise Abort("sizes differ: %r and %r" % (a, b))
    # remember it when one of them is the unknown size of an object
    for x in (a, b):
        s = x.single()
        if s is not None and s.op in ("Size", "Height", "Width"):
            I.assume(d)
            return
    I.mismatch.append((repr(a), repr(b), I.line))


# ------------------------------------------------------------ Vector
def setsize(I, o, n):
    old = I.get(o.f["size"])
    n = T.simplify(I.norm(n))
    if T.simplify(old - n) == ZERO:
        return
    b = I.get(o.f["buf"])
    I.cset(o.f["size"], n)
    I.breset(b, I.stale(o.a) if b.base is not None else None)


def fresh_vec(I, size, name="vec", zero=False):
    o = I.make(VEC, I.fresh_atom("loc:" + name), fresh=True)
    o.f["size"].v = size
    if zero:
        b = o.f["buf"].v
        b.base = lambda A: ZERO
    return o


def fresh_mat(I, h, w, name="mat", zero=False):
    o = I.make(MAT, I.fresh_atom("loc:" + name), fresh=True)
    o.f["h"].v, o.f["w"].v = h, w
    if zero:
        o.f["buf"].v.base = lambda A: ZERO
    return o


def dname(I):
    return getattr(I, "decl_name", None) or "tmp"


@model("ctor:" + VEC)
def vec_ctor(I, e):
    a = e["a"]
    n = dname(I)
    if not a:
        return fresh_vec(I, ZERO, n)
    x = I.ev(a[0])
    if len(a) == 1 and isinstance(x, Poly):
        return fresh_vec(I, x, n)
    if len(a) == 2 and isinstance(x, DPtr):
        o = fresh_vec(I, num(I.ev(a[1])), n)
        o.f["buf"].v, o.f["off"].v = x.buf, x.off
        return o
    if len(a) >= 3 and is_vec(x):           # Vector(base, offset, size)
        o = fresh_vec(I, num(I.ev(a[2])), n)
        b, off = vbuf(I, x)
        o.f["buf"].v, o.f["off"].v = b, off + num(I.ev(a[1]))
        return o
    return None


@model("ctor:" + MAT)
def mat_ctor(I, e):
    a = e["a"]
    n = dname(I)
    if not a:
        return fresh_mat(I, ZERO, ZERO, n)
    x = I.ev(a[0])
    if isinstance(x, Poly):
        w = num(I.ev(a[1])) if len(a) > 1 else x
        return fresh_mat(I, x, w, n, zero=True)
    if isinstance(x, DPtr) and len(a) == 3:
        o = fresh_mat(I, num(I.ev(a[1])), num(I.ev(a[2])), n)
        o.f["buf"].v, o.f["off"].v = x.buf, x.off
        return o
    return None


@model("copy")
def copy(I, o):
    if o.cls == VEC:
        r = fresh_vec(I, vsize(I, o), dname(I))
        assign_vec(I, r, o)
        return r
    if o.cls == MAT:
        h, w = mdim(I, o)
        r = fresh_mat(I, h, w, dname(I))
        assign_mat(I, r, o)
        return r
    if o.cls == "mfem::IntegrationPoint":
        return o
    return None


def assign_vec(I, d, s):
    n = vsize(I, s)
    setsize(I, d, n)
    fill(I, [n], lambda k: (*at(velem(I, d, k)), vget(I, s, k)))


def assign_mat(I, d, s):
    h, w = mdim(I, s)
    msetsize(I, d, h, w)
    fill(I, [h, w], lambda r, c: (*maddr(I, d, r, c), mget(I, s, r, c)))


def at(el):
    return el.buf, el.addr


@V("SetSize")
def v_setsize(I, e, o, a):
    setsize(I, o, num(I.ev(a[0])))


@V("Size")
def v_size(I, e, o, a):
    return vsize(I, o)


@V("GetData", "ReadWrite", "Read", "Write", "HostRead", "HostReadWrite", "HostWrite")
def v_data(I, e, o, a):
    b, off = vbuf(I, o)
    return DPtr(b, off)


@V("operator()", "operator[]", "Elem")
def v_elem(I, e, o, a):
    return velem(I, o, num(I.ev(a[0])))


@V("operator=")
def v_assign(I, e, o, a):
    x = I.ev(a[0])
    if isinstance(x, Poly):
        fill(I, [vsize(I, o)], lambda k: (*at(velem(I, o, k)), x))
    elif is_vec(x):
        if x is not o:
            assign_vec(I, o, x)
    else:
        raise Unsupported("Vector = %r" % (x,))
    return o


def v_update(op):
    def f(I, e, o, a):
        x = I.ev(a[0])
        n = vsize(I, o)
        if op in ("+", "-") and (is_vec(x) or isinstance(x, Poly)):
            s = 1 if op == "+" else -1
            if is_vec(x):
                agree(I, n, vsize(I, x))
            fill(I, [n], lambda k: (*at(velem(I, o, k)), (vget(I, x, k) if is_vec(x) else x) * s), "add")
            return o
        if isinstance(x, Poly) and op in ("*", "/"):
            if op == "/":
                x = P1(T.inv(x))
            fill(I, [n], lambda k: (*at(velem(I, o, k)), vget(I, o, k) * x))
            return o
        raise Unsupported("Vector %s= %r" % (op, x))
    return f


for _op in "+-*/":
    M["mfem::Vector::operator%s=" % _op] = v_update(_op)


@V("operator*")
def v_dot(I, e, o, a):
    x = I.obj(a[0]) if not isinstance(a[0], Obj) else a[0]
    return dot(I, o, x)


def dot(I, x, y):
    if not (is_vec(x) and is_vec(y)):
        raise Unsupported("dot product")
    agree(I, vsize(I, x), vsize(I, y))
    return summed(vsize(I, x), lambda k: vget(I, x, k) * vget(I, y, k), I)


@model("mfem::InnerProduct")
def inner(I, e, o, a):
    return dot(I, I.obj(a[0]), I.obj(a[1]))


@V("Add")
def v_add(I, e, o, a):
    s, x = num(I.ev(a[0])), I.obj(a[1])
    agree(I, vsize(I, o), vsize(I, x))
    fill(I, [vsize(I, o)], lambda k: (*at(velem(I, o, k)), s * vget(I, x, k)), "add")
    return o


@V("Set")
def v_set(I, e, o, a):
    s, x = num(I.ev(a[0])), I.obj(a[1])
    agree(I, vsize(I, o), vsize(I, x))
    fill(I, [vsize(I, o)], lambda k: (*at(velem(I, o, k)), s * vget(I, x, k)))
    return o


@V("Neg")
def v_neg(I, e, o, a):
    fill(I, [vsize(I, o)], lambda k: (*at(velem(I, o, k)), -vget(I, o, k)))


@V("Norml2")
def v_norm(I, e, o, a):
    return P1(T.rt(summed(vsize(I, o), lambda k: vget(I, o, k) * vget(I, o, k), I)))


@V("Sum")
def v_sum(I, e, o, a):
    return summed(vsize(I, o), lambda k: vget(I, o, k), I)


@V("SetData")
def v_setdata(I, e, o, a):
    p = I.ev(a[0])
    if not isinstance(p, DPtr):
        raise Unsupported("SetData")
    I.cset(o.f["buf"], p.buf)
    I.cset(o.f["off"], p.off)


@V("SetDataAndSize", "NewDataAndSize")
def v_setdatasize(I, e, o, a):
    v_setdata(I, e, o, a)
    I.cset(o.f["size"], num(I.ev(a[1])))


@V("MakeRef")
def v_makeref(I, e, o, a):
    x = I.obj(a[0])
    b, off = vbuf(I, x)
    I.cset(o.f["buf"], b)
    I.cset(o.f["off"], off + num(I.ev(a[1])))
    if len(a) > 2 and a[2] is not None and a[2]["k"] != "other":
        I.cset(o.f["size"], num(I.ev(a[2])))


@V("Destroy", "SyncMemory", "UseDevice", "SyncAliasMemory")
def v_nop(I, e, o, a):
    return None


@model("mfem::add")
def f_add(I, e, o, a):
    """add(v1, v2, v), add(v1, alpha, v2, v), add(a, x, b, y, z)"""
    xs = [I.ev(x) for x in a]
    d = xs[-1]
    if not is_vec(d):
        raise Unsupported("add")
    if len(xs) == 3 and is_vec(xs[0]) and is_vec(xs[1]):
        f = lambda k: vget(I, xs[0], k) + vget(I, xs[1], k)
        n = vsize(I, xs[0])
    elif len(xs) == 4 and is_vec(xs[0]) and isinstance(xs[1], Poly):
        f = lambda k: vget(I, xs[0], k) + xs[1] * vget(I, xs[2], k)
        n = vsize(I, xs[0])
    elif len(xs) == 5:
        f = lambda k: xs[0] * vget(I, xs[1], k) + xs[2] * vget(I, xs[3], k)
        n = vsize(I, xs[1])
    else:
        raise Unsupported("add")
    agree(I, n, vsize(I, d))
    fill(I, [n], lambda k: (*at(velem(I, d, k)), f(k)))


@model("mfem::subtract")
def f_subtract(I, e, o, a):
    xs = [I.ev(x) for x in a]
    d = xs[-1]
    if len(xs) == 3 and all(is_vec(x) for x in xs):
        agree(I, vsize(I, xs[0]), vsize(I, d))
        fill(I, [vsize(I, d)], lambda k: (*at(velem(I, d, k)), vget(I, xs[0], k) - vget(I, xs[1], k)))
        return
    raise Unsupported("subtract")


# ------------------------------------------------------------ DenseMatrix
def msetsize(I, o, h, w):
    h, w = T.simplify(I.norm(h)), T.simplify(I.norm(w))
    oh, ow = mdim(I, o)
    if T.simplify(oh - h) == ZERO and T.simplify(ow - w) == ZERO:
        return
    b = I.get(o.f["buf"])
    I.cset(o.f["h"], h)
    I.cset(o.f["w"], w)
    I.breset(b, I.stale(o.a))


@D("SetSize")
def m_setsize(I, e, o, a):
    h = num(I.ev(a[0]))
    msetsize(I, o, h, num(I.ev(a[1])) if len(a) > 1 else h)


@D("Height", "NumRows")
def m_h(I, e, o, a):
    return mdim(I, o)[0]


@D("Width", "NumCols")
def m_w(I, e, o, a):
    return mdim(I, o)[1]


@model("mfem::Operator::Height", "mfem::Operator::NumRows")
def op_h(I, e, o, a):
    if is_mat(o):
        return mdim(I, o)[0]
    return P(atom("NumRows", o.a))


@model("mfem::Operator::Width", "mfem::Operator::NumCols")
def op_w(I, e, o, a):
    if is_mat(o):
        return mdim(I, o)[1]
    return P(atom("NumCols", o.a))


@D("operator()", "Elem")
def m_elem(I, e, o, a):
    b, ad = maddr(I, o, num(I.ev(a[0])), num(I.ev(a[1])))
    return Elem(b, ad)


@D("GetData", "Data", "Read", "Write", "ReadWrite", "HostRead", "HostWrite", "HostReadWrite")
def m_data(I, e, o, a):
    b, off = vbuf(I, o)
    return DPtr(b, off)


@D("UseExternalData", "Reset")
def m_external(I, e, o, a):
    p = I.ev(a[0])
    if isinstance(p, SymPtr):
        p = DPtr(I.symbuf(p), ZERO)
    if not isinstance(p, DPtr):
        raise Unsupported("UseExternalData")
    I.cset(o.f["buf"], p.buf)
    I.cset(o.f["off"], p.off)
    I.cset(o.f["h"], T.simplify(num(I.ev(a[1]))))
    I.cset(o.f["w"], T.simplify(num(I.ev(a[2]))))


@D("ClearExternalData", "Clear")
def m_clear(I, e, o, a):
    I.cset(o.f["h"], ZERO)
    I.cset(o.f["w"], ZERO)


@D("operator=")
def m_assign(I, e, o, a):
    x = I.ev(a[0])
    if isinstance(x, Poly):
        fill(I, list(mdim(I, o)), lambda r, c: (*maddr(I, o, r, c), x))
    elif is_mat(x):
        if x is not o:
            assign_mat(I, o, x)
    else:
        raise Unsupported("DenseMatrix = %r" % (x,))
    return o


@D("operator*=", "operator/=")
def m_scale(I, e, o, a):
    x = num(I.ev(a[0]))
    if e["op"] == "/=":
        x = P1(T.inv(x))
    fill(I, list(mdim(I, o)), lambda r, c: (*maddr(I, o, r, c), mget(I, o, r, c) * x))
    return o


def m_addsub(s):
    def f(I, e, o, a):
        x = I.obj(a[0])
        if not is_mat(x):
            raise Unsupported("+=")
        fill(I, list(mdim(I, o)), lambda r, c: (*maddr(I, o, r, c), mget(I, x, r, c) * s), "add")
        return o
    return f


M["mfem::DenseMatrix::operator+="] = m_addsub(1)
M["mfem::DenseMatrix::operator-="] = m_addsub(-1)


@D("Add")
def m_add(I, e, o, a):
    s, x = num(I.ev(a[0])), I.obj(a[1])
    fill(I, list(mdim(I, o)), lambda r, c: (*maddr(I, o, r, c), s * mget(I, x, r, c)), "add")


@D("Set")
def m_set(I, e, o, a):
    s, x = num(I.ev(a[0])), I.obj(a[1])
    h, w = mdim(I, x)
    msetsize(I, o, h, w)
    fill(I, [h, w], lambda r, c: (*maddr(I, o, r, c), s * mget(I, x, r, c)))


@D("Neg")
def m_neg(I, e, o, a):
    fill(I, list(mdim(I, o)), lambda r, c: (*maddr(I, o, r, c), -mget(I, o, r, c)))


@D("AddMatrix")
def m_addmatrix(I, e, o, a):
    if len(a) == 4:
        s, x, ro, co = num(I.ev(a[0])), I.obj(a[1]), num(I.ev(a[2])), num(I.ev(a[3]))
    else:
        s, x, ro, co = ONE, I.obj(a[0]), num(I.ev(a[1])), num(I.ev(a[2]))
    h, w = mdim(I, x)
    fill(I, [h, w], lambda r, c: (*maddr(I, o, r + ro, c + co), s * mget(I, x, r, c)), "add")


@D("Mult")
def m_mult(I, e, o, a):
    mulvec(I, o, I.obj(a[0]), I.obj(a[1]), ONE, False, "set")


@D("MultTranspose")
def m_multt(I, e, o, a):
    mulvec(I, o, I.obj(a[0]), I.obj(a[1]), ONE, True, "set")


@D("AddMult")
def m_addmult(I, e, o, a):
    mulvec(I, o, I.obj(a[0]), I.obj(a[1]), opt(I, a, 2), False, "add")


@D("AddMultTranspose")
def m_addmultt(I, e, o, a):
    mulvec(I, o, I.obj(a[0]), I.obj(a[1]), opt(I, a, 2), True, "add")


@D("AddMult_a")
def m_addmult_a(I, e, o, a):
    mulvec(I, o, I.obj(a[1]), I.obj(a[2]), num(I.ev(a[0])), False, "add")


@D("AddMultTranspose_a")
def m_addmultt_a(I, e, o, a):
    mulvec(I, o, I.obj(a[1]), I.obj(a[2]), num(I.ev(a[0])), True, "add")


def opt(I, a, i):
    if len(a) <= i or a[i] is None:
        return ONE
    if a[i]["k"] == "other" and not a[i].get("a"):
        return ONE
    return num(I.ev(a[i]))


def mulvec(I, A, x, y, s, tr, kind):
    h, w = mdim(I, A)
    if not (is_vec(x) and is_vec(y)):
        raise Unsupported("matrix-vector product")
    n, k = (w, h) if tr else (h, w)
    agree(I, vsize(I, x), k)
    agree(I, vsize(I, y), n)
    fill(I, [n], lambda r: (*at(velem(I, y, r)), s * summed(
        k, lambda c: (mget(I, A, c, r) if tr else mget(I, A, r, c)) * vget(I, x, c), I)), kind)


@D("InnerProduct")
def m_inner(I, e, o, a):
    if len(a) != 2:
        raise Unsupported("InnerProduct")
    x, y = I.obj(a[0]), I.obj(a[1])
    h, w = mdim(I, o)
    return summed(h, lambda r: vget(I, y, r) * summed(w, lambda c: mget(I, o, r, c) * vget(I, x, c), I), I)


@D("GetColumnReference")
def m_colref(I, e, o, a):
    c, v = num(I.ev(a[0])), I.obj(a[1])
    h, w = mdim(I, o)
    b, ad = maddr(I, o, ZERO, c)
    I.cset(v.f["buf"], b)
    I.cset(v.f["off"], ad)
    I.cset(v.f["size"], h)


@D("GetColumn")
def m_getcol(I, e, o, a):
    c = num(I.ev(a[0]))
    h, w = mdim(I, o)
    if len(a) == 1:
        b, ad = maddr(I, o, ZERO, c)
        return DPtr(b, ad)
    v = I.obj(a[1])
    setsize(I, v, h)
    fill(I, [h], lambda r: (*at(velem(I, v, r)), mget(I, o, r, c)))


@D("GetRow")
def m_getrow(I, e, o, a):
    r, v = num(I.ev(a[0])), I.obj(a[1])
    h, w = mdim(I, o)
    setsize(I, v, w)
    fill(I, [w], lambda c: (*at(velem(I, v, c)), mget(I, o, r, c)))


@D("SetCol")
def m_setcol(I, e, o, a):
    c, x = num(I.ev(a[0])), I.ev(a[1])
    h, w = mdim(I, o)
    fill(I, [h], lambda r: (*maddr(I, o, r, c), vget(I, x, r) if is_vec(x) else num(x)))


@D("SetRow")
def m_setrow(I, e, o, a):
    r, x = num(I.ev(a[0])), I.ev(a[1])
    h, w = mdim(I, o)
    fill(I, [w], lambda c: (*maddr(I, o, r, c), vget(I, x, c) if is_vec(x) else num(x)))


@D("Transpose")
def m_transpose(I, e, o, a):
    x = I.obj(a[0]) if a else o
    h, w = mdim(I, x)
    if x is o:
        s = T.simplify(h - w)
        if s != ZERO:
            raise Unsupported("in-place transpose")
        fill(I, [h, w], lambda r, c: (*maddr(I, o, r, c), mget(I, o, c, r)))
        return
    msetsize(I, o, w, h)
    fill(I, [w, h], lambda r, c: (*maddr(I, o, r, c), mget(I, x, c, r)))


@D("Trace")
def m_trace(I, e, o, a):
    return summed(mdim(I, o)[0], lambda k: mget(I, o, k, k), I)


def mats(I, a, *idx):
    r = []
    for i in idx:
        o = I.obj(a[i])
        if not (is_mat(o) or is_vec(o)):
            raise Unsupported("matrix argument")
        r.append(o)
    return r


def matmul(I, A, B, C, s, ta, tb, kind):
    ah, aw = mdim(I, A)
    bh, bw = mdim(I, B)
    if ta:
        ah, aw = aw, ah
    if tb:
        bh, bw = bw, bh
    agree(I, aw, bh)
    ch, cw = mdim(I, C)
    agree(I, ch, ah)
    agree(I, cw, bw)
    ga = (lambda r, k: mget(I, A, k, r)) if ta else (lambda r, k: mget(I, A, r, k))
    gb = (lambda k, c: mget(I, B, c, k)) if tb else (lambda k, c: mget(I, B, k, c))
    fill(I, [ah, bw], lambda r, c: (*maddr(I, C, r, c), s * summed(aw, lambda k: ga(r, k) * gb(k, c), I)), kind)


def reg_mm(name, has_s, ta, tb, kind):
    def f(I, e, o, a):
        s = num(I.ev(a[0])) if has_s else ONE
        A, B, C = mats(I, a, *(range(1, 4) if has_s else range(0, 3)))
        matmul(I, A, B, C, s, ta, tb, kind)
    M["mfem::" + name] = f


for n, hs, ta, tb, k in (("Mult", 0, 0, 0, "set"), ("MultAtB", 0, 1, 0, "set"), ("MultABt", 0, 0, 1, "set"),
                         ("AddMult", 0, 0, 0, "add"), ("AddMult_a", 1, 0, 0, "add"), ("AddMultABt", 0, 0, 1, "add"),
                         ("AddMult_a_ABt", 1, 0, 1, "add"), ("AddMultAtB", 0, 1, 0, "add"), ("AddMult_a_AtB", 1, 1, 0, "add")):
    reg_mm(n, hs, ta, tb, k)


def reg_aat(name, has_s, kind):
    def f(I, e, o, a):
        s = num(I.ev(a[0])) if has_s else ONE
        A, C = mats(I, a, *(range(1, 3) if has_s else range(0, 2)))
        matmul(I, A, A, C, s, 0, 1, kind)
    M["mfem::" + name] = f


reg_aat("MultAAt", 0, "set")
reg_aat("AddMult_a_AAt", 1, "add")


def reg_outer(name, has_s, same, kind):
    def f(I, e, o, a):
        i0 = 1 if has_s else 0
        s = num(I.ev(a[0])) if has_s else ONE
        v = I.obj(a[i0])
        w = v if same else I.obj(a[i0 + 1])
        C = I.obj(a[i0 + (1 if same else 2)])
        ch, cw = mdim(I, C)
        agree(I, ch, vsize(I, v))
        agree(I, cw, vsize(I, w))
        fill(I, [vsize(I, v), vsize(I, w)],
             lambda r, c: (*maddr(I, C, r, c), s * vget(I, v, r) * vget(I, w, c)), kind)
    M["mfem::" + name] = f


for n, hs, sm, k in (("MultVWt", 0, 0, "set"), ("MultVVt", 0, 1, "set"), ("AddMultVWt", 0, 0, "add"),
                     ("AddMultVVt", 0, 1, "add"), ("AddMult_a_VWt", 1, 0, "add"), ("AddMult_a_VVt", 1, 1, "add")):
    reg_outer(n, hs, sm, k)


# ------------------------------------------------------------ geometry
def jac_of(I, A):
    """The Jacobian a matrix object stands for, or None."""
    return A.a if A.a.op == "Jac" else None


@model("mfem::CalcAdjugate")
def calc_adj(I, e, o, a):
    A, C = I.obj(a[0]), I.obj(a[1])
    j = jac_of(I, A)
    if j is None:
        raise Unsupported("adjugate of a computed matrix")
    h, w = mdim(I, C)
    fill(I, [h, w], lambda r, c: (*maddr(I, C, r, c), P(atom("Weight", *j.args)) * P(atom("InvJ", *j.args, r, c))))


@model("mfem::CalcInverse")
def calc_inv(I, e, o, a):
    A, C = I.obj(a[0]), I.obj(a[1])
    j = jac_of(I, A)
    if j is None:
        raise Unsupported("inverse of a computed matrix")
    h, w = mdim(I, C)
    fill(I, [h, w], lambda r, c: (*maddr(I, C, r, c), P(atom("InvJ", *j.args, r, c))))


@model("mfem::CalcOrtho")
def calc_ortho(I, e, o, a):
    A, v = I.obj(a[0]), I.obj(a[1])
    j = jac_of(I, A)
    if j is None:
        raise Unsupported("normal of a computed matrix")
    fill(I, [vsize(I, v)], lambda k: (*at(velem(I, v, k)), P(atom("Ortho", *j.args, k))))


def tr_ip(I, o):
    c = o.f.get("#ip")
    if c is None:
        c = o.f["#ip"] = Cell(Opaque(atom("stale", "%s.point" % o.a.s)), 0, 0, o.a.s + ".point")
    return c


def cur_ip(I, o):
    v = I.cget(tr_ip(I, o))
    return v.a


TRCLS = ("mfem::ElementTransformation", "mfem::FaceElementTransformations", "mfem::IsoparametricTransformation")


def TR(*names):
    return model(*["%s::%s" % (c, n) for c in TRCLS for n in names])


@TR("SetIntPoint")
def t_setip(I, e, o, a):
    p = I.ev(a[0])
    I.cset(tr_ip(I, o), Opaque(I.deref(p).a))


@TR("SetAllIntPoints")
def t_setall(I, e, o, a):
    p = I.deref(I.ev(a[0]))
    I.cset(tr_ip(I, o), Opaque(p.a))
    for k in ("1", "2"):
        el = I.obj_of(atom("Elem" + k, o.a), "mfem::ElementTransformation")
        I.cset(tr_ip(I, el), Opaque(atom("eip" + k, o.a, p.a)))


@TR("GetElement1IntPoint")
def t_eip1(I, e, o, a):
    return I.obj_of(atom("eip1", o.a, cur_ip(I, o)), "mfem::IntegrationPoint")


@TR("GetElement2IntPoint")
def t_eip2(I, e, o, a):
    return I.obj_of(atom("eip2", o.a, cur_ip(I, o)), "mfem::IntegrationPoint")


@TR("GetElement1Transformation")
def t_el1(I, e, o, a):
    return I.obj_of(atom("Elem1", o.a), "mfem::ElementTransformation")


@TR("GetElement2Transformation")
def t_el2(I, e, o, a):
    return I.obj_of(atom("Elem2", o.a), "mfem::ElementTransformation")


@TR("GetIntPoint")
def t_getip(I, e, o, a):
    return I.obj_of(cur_ip(I, o), "mfem::IntegrationPoint")


@TR("Weight")
def t_weight(I, e, o, a):
    return P(atom("Weight", o.a, cur_ip(I, o)))


def jmat(I, op, o):
    ip = cur_ip(I, o)
    k = atom(op, o.a, ip)
    m = I.objs.get(k)
    if m is None:
        m = I.objs[k] = I.make(MAT, k, 0, 0)
        d = P(atom("GetDim"))
        m.f["h"].v, m.f["w"].v = d, (d - 1 if o.a.op == "par" and o.cls.endswith("FaceElementTransformations") else d)
        b = m.f["buf"].v

        def base(A):
            # split r + h*c
            h = m.f["h"].v
            r, c = split(A, I.norm(h))
            if op == "Jac":
                return P(atom("Jac", *k.args, r, c))
            v = P(atom("InvJ", *k.args, r, c))
            return v if op == "InvJ" else P(atom("Weight", *k.args)) * v
        b.base = base
    return m


def split(A, h):
    """A = r + h*c"""
    s = P1(T.sz(h))
    r, c = {}, {}
    if len(s.m) == 1:
        (mo, co), = s.m.items()
        for m2, k in A.m.items():
            d = T.divisible(m2, mo) if mo else None
            if d is not None:
                c[d] = T.Fr(k) / co
            else:
                r[m2] = k
        return Poly(r), Poly(c)
    raise Unsupported("matrix address")


@TR("Jacobian")
def t_jac(I, e, o, a):
    return jmat(I, "Jac", o)


@TR("InverseJacobian")
def t_ijac(I, e, o, a):
    return jmat(I, "InvJ", o)


@TR("AdjugateJacobian")
def t_adj(I, e, o, a):
    return jmat(I, "Adj", o)


@TR("GetSpaceDim", "GetDimension")
def t_sdim(I, e, o, a):
    return P(atom("GetDim"))


@model("mfem::FiniteElement::CalcShape", "mfem::FiniteElement::CalcPhysShape")
def fe_shape(I, e, o, a):
    x, v = I.obj(a[0]), I.obj(a[1])
    n = P(atom("GetDof", o.a))
    ip = cur_ip(I, x) if e["callee"].endswith("CalcPhysShape") else x.a
    agree(I, vsize(I, v), n)
    fill(I, [n], lambda k: (*at(velem(I, v, k)), P(atom("Shape", o.a, ip, k))))


@model("mfem::FiniteElement::CalcDShape")
def fe_dshape(I, e, o, a):
    x, v = I.obj(a[0]), I.obj(a[1])
    n, d = P(atom("GetDof", o.a)), I.norm(P(atom("GetDim")))
    h, w = mdim(I, v)
    agree(I, h, n)
    agree(I, w, d)
    fill(I, [n, d], lambda k, c: (*maddr(I, v, k, c), P(atom("DShape", o.a, x.a, k, c))))


@model("mfem::FiniteElement::CalcPhysDShape")
def fe_pdshape(I, e, o, a):
    x, v = I.obj(a[0]), I.obj(a[1])
    n, d = P(atom("GetDof", o.a)), I.norm(P(atom("GetDim")))
    ip = cur_ip(I, x)
    h, w = mdim(I, v)
    agree(I, h, n)
    agree(I, w, d)
    fill(I, [n, d], lambda k, c: (*maddr(I, v, k, c), summed(
        d, lambda m: P(atom("DShape", o.a, ip, k, m)) * P(atom("InvJ", x.a, ip, m, c)), I)))


@model("mfem::FiniteElement::GetDof")
def fe_dof(I, e, o, a):
    return P(atom("GetDof", o.a))


@model("mfem::FiniteElement::GetDim")
def fe_dim(I, e, o, a):
    return I.norm(P(atom("GetDim")))


@model("mfem::IntegrationRule::IntPoint")
def ir_point(I, e, o, a):
    return I.obj_of(atom("ip", o.a, num(I.ev(a[0]))), "mfem::IntegrationPoint")


@model("mfem::IntegrationRule::GetNPoints", "mfem::IntegrationRule::Size")
def ir_n(I, e, o, a):
    return P(atom("GetNPoints", o.a))


@model("mfem::IntegrationRules::Get")
def irs_get(I, e, o, a):
    g, n = I.ev(a[0]), I.ev(a[1])
    return I.obj_of(atom("rule", T.close_poly(num(g)), T.close_poly(num(n))), "mfem::IntegrationRule")


@model("mfem::NonlinearFormIntegrator::GetIntegrationRule", "mfem::NonlinearFormIntegrator::GetIntRule",
       "mfem::BilinearFormIntegrator::GetIntegrationRule", "mfem::LinearFormIntegrator::GetIntRule")
def nf_rule(I, e, o, a):
    return I.get(I.field(o, "IntRule", "const mfem::IntegrationRule *"))


@model("member")
def member(I, o, e):
    n = e["n"]
    if o.cls == "mfem::IntegrationPoint":
        return I.newcell(P(atom("wt" if n == "weight" else "ip." + n, o.a)), n)
    if n == "Face" and "Transformations" in o.cls:
        return I.newcell(Ptr(o), "Face")        # the face transformation is the object itself
    if n in ("Elem1", "Elem2") and "Transformations" in o.cls:
        c = o.f.get(n)
        if c is None:
            c = o.f[n] = Cell(SymPtr(atom(n, o.a), "mfem::ElementTransformation *"), 0, 0, n)
        return c
    return None


# ------------------------------------------------------------ coefficients
@model("mfem::Coefficient::Eval")
def q_eval(I, e, o, a):
    t, x = I.obj(a[0]), I.obj(a[1])
    return P(atom("Eval", o.a, t.a, x.a))


@model("mfem::VectorCoefficient::Eval")
def vq_eval(I, e, o, a):
    v, t, x = I.obj(a[0]), I.obj(a[1]), I.obj(a[2])
    if not is_vec(v) or x.cls != "mfem::IntegrationPoint":
        raise Unsupported("VectorCoefficient::Eval")
    # the coefficient sets the size; a size the routine chose beforehand is taken to be that of the coefficient
    n = v.f["size"].v
    if not isinstance(n, Poly) or n == ZERO or any(x.op in ("Size", "mk") for x in T.atoms_in(n)):
        n = I.norm(P(atom("GetDim")))
        setsize(I, v, n)
    fill(I, [n], lambda k: (*at(velem(I, v, k)), P(atom("VEval", o.a, t.a, x.a, k))))


@model("mfem::MatrixCoefficient::Eval")
def mq_eval(I, e, o, a):
    v, t, x = I.obj(a[0]), I.obj(a[1]), I.obj(a[2])
    h = w = I.norm(P(atom("GetDim")))
    msetsize(I, v, h, w)
    fill(I, [h, w], lambda r, c: (*maddr(I, v, r, c), P(atom("MEval", o.a, t.a, x.a, r, c))))


# ------------------------------------------------------------ arrays
def arr_el(cls):
    return cls[cls.index("<") + 1:-1].strip()


def arr_at(I, o, i):
    el = arr_el(o.cls)
    if "buf" in o.f:
        b, off = vbuf(I, o)
        return Elem(b, off + i)
    k = i.const()
    if k is not None:
        key = ("el", int(k))
        c = o.f.get(key)
        if c is None:
            v = I.symbolic(el, atom("elem", o.a, i))
            c = o.f[key] = v if isinstance(v, Obj) else Cell(v, o.ld, o.gd, "%s[%s]" % (o.a.s, int(k)), el)
        return c
    if any(isinstance(q, tuple) for q in o.f):
        raise Unsupported("array with mixed indices")
    v = I.symbolic(el, atom("elem", o.a, i))
    if isinstance(v, Obj):
        v.sym = True
        return v
    return I.newcell(v, "elem", el)


def array_method(I, e, o, a):
    n = e["callee"].split("::")[-1]
    if n in ("Size", "size"):
        return I.get(o.f["size"])
    if n in ("operator[]", "at"):
        return arr_at(I, o, num(I.ev(a[0])))
    if n in ("GetData", "data"):
        if "buf" in o.f:
            b, off = vbuf(I, o)
            return DPtr(b, off)
    if n == "SetSize" and len(a) == 1:
        m = num(I.ev(a[0]))
        if "buf" in o.f:
            setsize(I, o, m)
            return None
        I.cset(o.f["size"], T.simplify(I.norm(m)))
        return None
    if n == "operator=" and "buf" in o.f:
        x = I.ev(a[0])
        if isinstance(x, Poly):
            fill(I, [I.get(o.f["size"])], lambda k: (*at(velem(I, o, k)), x))
            return o
    if n == "operator=" and not ("buf" in o.f):
        x = I.ev(a[0])
        m = I.get(o.f["size"]).const()
        if m is not None and m <= 64 and (x is NULL or isinstance(x, (SymPtr, Ptr)) or x == ZERO):
            for k in range(int(m)):
                c = arr_at(I, o, P(k))
                if isinstance(c, Cell):
                    I.cset(c, NULL if x == ZERO else x)
            return o
    raise Unsupported("call of " + e["callee"])


def array2d_method(I, e, o, a):
    n = e["callee"].split("::")[-1]
    if n == "NumRows":
        return I.get(o.f["rows"])
    if n == "NumCols":
        return I.get(o.f["cols"])
    if n == "operator()":
        i, j = num(I.ev(a[0])), num(I.ev(a[1]))
        ci, cj = i.const(), j.const()
        if ci is None or cj is None:
            raise Unsupported("Array2D with a variable index")
        key = ("el", int(ci), int(cj))
        c = o.f.get(key)
        if c is None:
            el = arr_el(o.cls)
            v = I.symbolic(el, atom("elem", o.a, i, j))
            c = o.f[key] = v if isinstance(v, Obj) else Cell(v, o.ld, o.gd, "%s(%d,%d)" % (o.a.s, ci, cj), el)
        return c
    if n == "SetSize":
        I.cset(o.f["rows"], num(I.ev(a[0])))
        I.cset(o.f["cols"], num(I.ev(a[1])))
        return None
    raise Unsupported("call of " + e["callee"])


@model("mfem::SparseMatrix::Add", "mfem::SparseMatrix::_Add_")
def sp_add(I, e, o, a):
    if len(a) != 3 or "buf" not in o.f:
        raise Unsupported("call of " + e["callee"])
    i, j, v = [num(I.ev(x)) for x in a]
    b, ad = maddr(I, o, i, j)
    I.bwrite(b, "add", ad, v)
    return None


@model("opcall")
def any_opcall(I, e, o, a):
    c = e.get("callee", "")
    if isinstance(o, Obj):
        if o.cls.startswith("mfem::Array<") or o.cls.startswith("std::vector<"):
            return array_method(I, e, o, a)
        if o.cls.startswith("mfem::Array2D<"):
            return array2d_method(I, e, o, a)
    if c.startswith("std::basic_string"):
        return OPAQUE
    raise Unsupported("operator " + (c or e["op"]))


PURE_INT = {"GetOrder", "GetGeomType", "GetGeometryType", "OrderW", "OrderGrad", "Space", "Order", "GetVDim",
            "GetMapType", "GetDerivType", "GetRangeType", "GetRangeDim", "OrderJ"}


@model("mcall")
def any_mcall(I, e, o, a):
    c = e.get("callee", "")
    if isinstance(o, Obj):
        if o.cls.startswith("mfem::Array<") or o.cls.startswith("std::vector<"):
            return array_method(I, e, o, a)
        if o.cls.startswith("mfem::Array2D<"):
            return array2d_method(I, e, o, a)
        n = c.split("::")[-1]
        if n in PURE_INT:
            args = []
            for x in a:
                v = I.ev(x)
                if isinstance(v, Poly):
                    args.append(T.close_poly(v))
                elif isinstance(v, Ptr) and isinstance(v.to, Obj):
                    args.append(v.to.a)
                elif isinstance(v, SymPtr):
                    args.append(v.a)
                else:
                    raise Unsupported("call of " + c)
            return I.norm(P(atom(n, o.a, *args)))
    raise Unsupported("call of " + c)


@model("ctor")
def any_ctor(I, e):
    cls = e["cls"]
    if "<" not in cls:
        cls = ty(e.get("t", cls))[0]
    if cls.startswith(("mfem::Array<", "mfem::Array2D<", "std::vector<")):
        o = I.make(cls, I.fresh_atom("loc:" + dname(I)), fresh=True)
        if e["a"]:
            xs = [I.ev(x) for x in e["a"] if x is not None and not (x["k"] == "ctor" and x["cls"].startswith("std::alloc"))]
            if len(xs) == 1 and isinstance(xs[0], Poly):
                o.f["size"].v = xs[0]
            elif len(xs) == 2 and "rows" in o.f:
                o.f["rows"].v, o.f["cols"].v = num(xs[0]), num(xs[1])
            else:
                return None
        return o
    return None


# ------------------------------------------------------------ scalar functions
@model("sqrt", "std::sqrt")
def f_sqrt(I, e, o, a):
    return P1(T.rt(num(I.ev(a[0]))))


@model("std::abs", "fabs", "std::fabs", "abs")
def f_abs(I, e, o, a):
    x = num(I.ev(a[0]))
    c = x.const()
    if c is not None:
        return P(abs(c))
    x = T.close_poly(x)
    n = T.close_poly(-x)
    if repr(n) < repr(x):
        x = n
    return P(atom("fn", "abs", x))


@model("std::max")
def f_max(I, e, o, a):
    return P1(T.mx("max", num(I.ev(a[0])), num(I.ev(a[1]))))


@model("std::min")
def f_min(I, e, o, a):
    return P1(T.mx("min", num(I.ev(a[0])), num(I.ev(a[1]))))


@model("pow", "std::pow")
def f_pow(I, e, o, a):
    x, y = num(I.ev(a[0])), num(I.ev(a[1]))
    c = y.const()
    if c is not None and c.denominator == 1 and 0 <= c <= 4:
        r = ONE
        for _ in range(int(c)):
            r = r * x
        return r
    if c == T.Fr(1, 2):
        return P1(T.rt(x))
    return I.fn("pow", x, y)


def f_generic(name):
    def f(I, e, o, a):
        return I.fn(name, *[num(I.ev(x)) for x in a])
    return f


for _n in ("ceil", "floor", "exp", "log", "sin", "cos", "tanh"):
    M[_n] = M["std::" + _n] = f_generic(_n)
