"""Contracts of src/*/point.rs: group operations (C12-C18)."""
from ..engine import contract, lemma, INLINE
from ..lib import *
from ..ext import D, DR
from ..loops import natural_loops as loops_of, install, PathEnd, AuxFailure
from .fp import cases_of
from .scalar import mk_sc, view_sc, SC, ITN, bit_of, same_iter, mk_iter, in_loop
from .curve import *

LAW = {"weierstrass": ("C13",), "montgomery": ("C15",), "edwards": ("C14",)}


def on_pt(method, trait=None):
    return lambda nm: nm.ty in PT and nm.trait == trait and nm.method == method


def no_panic(pan):
    if pan is not None:
        raise ProofFailure("does not panic", pan.msg)


# ------------------------------------------------------------------ identity test, normalization, equality
@contract("point.is_zero", on_pt("is_zero", "EcPoint"),
          lambda nm: cases_of(point_cases(pm(nm), lambda ex, C, pt, v: (v,)))(nm), props=("C18",))
def _(ex, nm, a):
    C, co, g = view_point(ex, a[0])
    if co is None:
        return lin_is_zero(ex.cx, g)
    pt = classify(ex, C, co)
    if pt is None:
        raise Unsupported("coordinates that represent no point")
    return is_neutral(C, pt)


@contract("point.is_two_torsion", on_pt("is_two_torsion"),
          lambda nm: cases_of(point_cases(pm(nm), lambda ex, C, pt, v: (v,)))(nm), props=("C26",))
def _(ex, nm, a):
    C, co, g = view_point(ex, a[0])
    pt = classify(ex, C, co)
    if C.m == "edwards" or pt is None:
        raise Unsupported("two-torsion")
    return pt != O and C.F.is_zero(pt[1])


@contract("point.normalize", on_pt("normalize"),
          lambda nm: cases_of(point_cases(pm(nm), lambda ex, C, pt, v: (v,)))(nm), props=("C18",),
          check=lambda *a: normalize_check(*a))
def _(ex, nm, a):
    C, co, g = view_point(ex, a[0])
    pt = classify(ex, C, co)
    if pt is None:
        raise Unsupported("coordinates that represent no point")
    if pt == O:
        u = P(ex.cx.ffresh("u"))
        C.F.assume_nonzero(u)
        v = C.point(C.zero_coords(u))
    else:
        v = C.point(C.affine_coords(*pt, ONE))
    DR(a[0]).set(v)
    return UNIT


def normalize_check(ex, nm, sa, args, out, pan):
    no_panic(pan)
    ex.in_spec = True
    C, co, g = view_point(ex, sa[0])
    pt = classify(ex, C, co)
    v = D(args[0])
    represents(ex, v, C, pt, "the normalized point")
    if pt != O and not C.F.is_zero(view_point(ex, v)[1][-1] - 1):
        raise ProofFailure("the normalized point has denominator coordinate 1")


def eq_cases(nm):
    m = pm(nm)
    out = []
    kinds = ("O", "A") if m != "edwards" else ("A",)

    def mk(ex, C, k, i):
        if k == "O":
            u = P(ex.cx.ffresh("u" + i))
            C.F.assume_nonzero(u)
            return C.point(C.zero_coords(u))
        return C.point(C.affine_coords(*xy_of(C, i), z_of(C, i)))

    def g(k, l):
        def f(ex):
            C = sym_curve(ex, m)
            return mk(ex, C, k, "1"), mk(ex, C, l, "2")
        return f
    for k in kinds:
        for l in kinds:
            out.append((f"{k} and {l}", g(k, l)))

    def same_pt(ex):
        C = sym_curve(ex, m)
        xy = xy_of(C)
        return C.point(C.affine_coords(*xy, z_of(C, "1"))), C.point(C.affine_coords(*xy, z_of(C, "2")))
    out.append(("two representations of one point", same_pt))

    def diff(what):
        def f(ex):
            C = sym_curve(ex, m)
            E = other_curve(ex, C, what)
            return mk(ex, C, "A", "1"), free_point(ex, E, "2")
        return f
    for w in differences(m):
        out.append((f"different curves ({w})", diff(w)))
    return cases_of(out)(nm)


def differences(m):
    return ("a", "d" if m == "edwards" else "b", "p", "r")


def other_curve(ex, C, what):
    cx = ex.cx
    if what == "p":
        E = sym_curve(ex, C.m, name="'")
        cx.int_assume("eq", E.pk - C.pk, False)
        return E
    E = Curve(ex, C.m, C.pk, C.par, C.r, C.g, C.h)
    if what == "r":
        E.r = P(cx.fresh("r'"))
        cx.int_assume("le", P(2) - E.r)
        cx.int_assume("eq", E.r - C.r, False)
    else:
        E.par[what] = P(cx.ffresh(what + "'"))
        C.F.assume_nonzero(E.par[what] - C.par[what])
    return E


def free_point(ex, C, i):
    """arbitrary coordinates (for cases in which they do not matter)"""
    x, y, z = (P(ex.cx.ffresh(n + i)) for n in "xyz")
    C.F.assume_nonzero(z)
    return C.point(C.affine_coords(x, y, z))


@contract("point.eq", lambda nm: nm.ty in PT and nm.trait == "PartialEq" and nm.method in ("eq", "ne"), eq_cases,
          props=("C18", "C09"))
def _(ex, nm, a):
    C, co, g = view_point(ex, a[0])
    E, cp, l = view_point(ex, a[1])
    r = points_equal(ex, C, co, g, E, cp, l)
    return r if nm.method == "eq" else not r


def points_equal(ex, C, co, g, E, cp, l):
    if not curves_equal(ex, C, E):
        return False
    if co is None or cp is None:
        raise Unsupported("comparison of group elements")
    p, q = classify(ex, C, co), classify(ex, E, cp)
    if p is None or q is None:
        raise Unsupported("coordinates that represent no point")
    if p == O or q == O:
        return p == q
    return C.F.is_zero(p[0] - q[0]) and C.F.is_zero(p[1] - q[1])


# ------------------------------------------------------------------ group elements
def lin_of(ex, v):
    """(curve, group element) for a point known as a group element or visibly the identity"""
    C, co, g = view_point(ex, v)
    if g is not None:
        return C, g
    if C.m == "edwards":
        x, y, t, z = co
        if C.F.known_zero(x) and C.F.known_zero(y - z) and C.F.known_zero(t):
            return C, {}
    elif C.F.known_zero(co[0]) and C.F.known_zero(co[2]):
        return C, {}
    return C, None


def lin_add(g, h, s=1):
    r = dict(g)
    for k, c in h.items():
        r[k] = r.get(k, ZERO) + c * s
    return {k: c for k, c in r.items() if not c.is_zero()}


def lin_same(cx, g, h):
    """equal as group elements, given the combinations assumed to be the identity (cx.pt_zero)"""
    d = lin_add(g, h, -1)
    units = {t for r in cx.pt_zero for t in unit(r)}
    d = {t: c for t, c in d.items() if t not in units}
    if all(cx.int_valid("eq", c) for c in d.values()):
        return True
    return any(all(cx.int_valid("eq", c) for c in lin_add(d, r, n).values())
               for r in cx.pt_zero if not unit(r) for n in (-1, 1, -2, 2, -4, 4))


def unit(g):
    """{t} for the combination t or -t"""
    return [t for t, c in g.items() if c.is_const() and abs(c.cval()) == 1] if len(g) == 1 else []


def lin_is_zero(cx, g):
    """is the combination the identity?  Explored both ways when nothing decides it"""
    if lin_same(cx, g, {}):
        return True
    if any(lin_same(cx, g, h) or lin_same(cx, lin_add({}, g, -1), h) for h in cx.pt_nonzero):
        return False
    if not unit(g):
        cx.pt_unsure = True     # the assumption may contradict others
    if cx.choose("a group element is the identity"):
        cx.pt_zero.append(g)
        if any(lin_same(cx, h, {}) for h in cx.pt_nonzero):
            raise Infeasible()
        return True
    cx.pt_nonzero.append(g)
    return False


def gen(ex, name="P"):
    return ex.cx.fresh("point " + name)


def check_lin(ex, out, C, want, what="result", props=None):
    out = D(out)
    same_curve(ex, out, C, what)
    _, g = lin_of(ex, out)
    if g is None:
        raise Unsupported("result is not expressed by the group operation")
    if not lin_same(ex.cx, g, want):
        if ex.cx.pt_unsure:
            raise Unsupported("cannot decide: the combination of points")
        raise pf(props, f"{what} is the specified combination of points", f"got {g}, specified {want}")


# ------------------------------------------------------------------ the group laws on coordinates
def law(ex, C, p, q):
    """the sum of two points given as O or affine coordinates"""
    F, par = C.F, C.par
    if C.m == "edwards":
        (x1, y1), (x2, y2) = p, q
        e = par["d"] * x1 * x2 * y1 * y2
        return ((x1 * y2 + x2 * y1) * F.inv(1 + e), (y1 * y2 - par["a"] * x1 * x2) * F.inv(1 - e))
    if p == O:
        return q
    if q == O:
        return p
    (x1, y1), (x2, y2) = p, q
    a2, a4, b = (0, par["a"], 1) if C.m == "weierstrass" else (par["a"], 1, par["b"])
    if F.is_zero(x1 - x2):
        if F.is_zero(y1 + y2):
            return O
        l = (3 * x1 * x1 + 2 * a2 * x1 + a4) * F.inv(2 * b * y1)
    else:
        l = (y1 - y2) * F.inv(x1 - x2)
    x3 = b * l * l - a2 - x1 - x2
    return F.reduce(x3), F.reduce(l * (x1 - x3) - y1)


def valid_pair(C, p, q):
    """instances of the validity of the curve for the points p, q of the law"""
    ex, F = C.ex, C.F
    if C.m == "edwards":
        e = C.par["d"] * p[0] * p[1] * q[0] * q[1]
        F.assume_nonzero(1 + e)      # lemma edwards.denominators
        F.assume_nonzero(1 - e)
        F.assume_nonzero(1 - e * e)
        return
    d = law(ex, C, p, C.neg(q) if q != O else O)
    if C.m == "weierstrass":
        # no point of order two
        for t in (p, q, d):
            if t != O:
                F.assume_nonzero(t[1])
    else:
        # the curve is nonsingular, and the line y = s meets it in no point
        F.assume_nonzero(C.par["a"] - 2)
        F.assume_nonzero(C.par["a"] + 2)
        if d != O:
            F.assume_nonzero(d[1] - C.par["s"])


def pair_cases(m):
    def build(make):
        def g(ex):
            C = sym_curve(ex, m, b_one=True)
            p, q = make(ex, C)
            valid_pair(C, p, q)

            def coo(t, i):
                if t == O:
                    u = P(ex.cx.ffresh("u" + i))
                    C.F.assume_nonzero(u)
                    return C.zero_coords(u)
                return C.affine_coords(*t, z_of(C, i))
            return C.point(coo(p, "1")), C.point(coo(q, "2"))
        return g

    def oo(ex, C):
        return O, O

    def po(ex, C):
        return first(ex, C), O

    def op(ex, C):
        return O, first(ex, C)

    def first(ex, C, i="1"):
        if m == "weierstrass":
            x, y = P(ex.cx.ffresh("x" + i)), P(ex.cx.ffresh("y" + i))
            C.F.assume_nonzero(y)
            C.F.assume_zero(C.eq_affine(x, y))
            return x, y
        if m == "montgomery":
            x, y = P(ex.cx.ffresh("x" + i)), P(ex.cx.ffresh("y" + i))
            C.F.assume_zero(C.eq_affine(x, y))
            return C.F.reduce(x), C.F.reduce(y)
        return xy_of(C, i)

    def chord(ex, C):
        F = C.F
        if m == "edwards":
            return xy_of(C, "1"), xy_of(C, "2")
        x1, y1, x2, y2 = (P(ex.cx.ffresh(n)) for n in ("x1", "y1", "x2", "y2"))
        F.assume_nonzero(x1 - x2)
        F.assume_zero(C.eq_affine(x1, y1))
        F.assume_zero(C.eq_affine(x2, y2))
        return tuple(F.reduce(v) for v in (x1, y1)), tuple(F.reduce(v) for v in (x2, y2))

    def tangent(ex, C):
        x, y = first(ex, C)
        C.F.assume_nonzero(y)
        return (x, y), (x, y)

    def opposite(ex, C):
        x, y = first(ex, C)
        return (x, y), (x, -y)
    if m == "edwards":
        def same(ex, C):
            p = xy_of(C)
            return p, p
        return [("any two points", build(chord)), ("a point twice", build(same))]
    return [("O + O", build(oo)), ("P + O", build(po)), ("O + P", build(op)), ("different x", build(chord)),
            ("equal points", build(tangent)), ("opposite points", build(opposite))]


def add_cases(nm):
    m = pm(nm)

    def diff(what):
        def f(ex):
            C = sym_curve(ex, m, b_one=True)
            E = other_curve(ex, C, what)
            return free_point(ex, C, "1"), free_point(ex, E, "2")
        return f
    return cases_of(pair_cases(m) + [(f"!different curves ({w})", diff(w)) for w in differences(m)])(nm)


def add_spec(ex, nm, a):
    C, g = lin_of(ex, a[0])
    E, h = lin_of(ex, a[1])
    if not curves_equal(ex, C, E):
        raise Panic("points of different curves")
    if g is None or h is None:
        raise Unsupported("sum of points in coordinates")
    return C.ghost(lin_add(g, h))


def add_check(ex, nm, sa, args, out, pan):
    ex.in_spec = True
    C, co, g = view_point(ex, sa[0])
    E, cp, h = view_point(ex, sa[1])
    if not curves_equal(ex, C, E):
        if pan is None:
            raise pf(("C09",), "adding points of different curves panics")
        return "value"
    no_panic(pan)
    p, q = classify(ex, C, co), classify(ex, C, cp)
    represents(ex, out, C, law(ex, C, p, q), onprops=("C12",), props=LAW[C.m])


@contract("point.core_add", on_pt("core_add"), lambda nm: cases_of(pair_cases(pm(nm)))(nm), private=True,
          check=add_check)
def _(ex, nm, a):
    C, co, g = view_point(ex, a[0])
    E, cp, h = view_point(ex, a[1])
    if g is not None and h is not None:
        return C.ghost(lin_add(g, h))
    if co is None or cp is None:
        raise Unsupported("mixed group element and coordinates")
    p, q = classify(ex, C, co), classify(ex, C, cp)
    if p is None or q is None:
        raise Unsupported("coordinates that represent no point")
    return general(ex, C, law(ex, C, p, q))


def general(ex, C, pt):
    """an arbitrary representation of a point"""
    u = P(ex.cx.ffresh("w"))
    C.F.assume_nonzero(u)
    return C.point(C.zero_coords(u) if pt == O else C.affine_coords(*pt, u))


@contract("point.add", lambda nm: nm.ty in PT and nm.trait == "Add" and nm.method == "add", add_cases,
          props=("C09", "C12", "C13", "C14", "C15"), check=add_check)
def _(ex, nm, a):
    return add_spec(ex, nm, a)


@contract("point.core_doubling", on_pt("core_doubling"),
          lambda nm: cases_of([(l, (lambda b: lambda ex: b(ex)[:1])(b)) for l, b in pair_cases(pm(nm))
                               if l in ("O + O", "equal points", "a point twice")])(nm),
          private=True, check=lambda *a: dbl_check(*a))
def _(ex, nm, a):
    C, co, g = view_point(ex, a[0])
    if g is not None:
        return C.ghost(lin_add(g, g))
    p = classify(ex, C, co)
    return general(ex, C, law(ex, C, p, p))


def dbl_check(ex, nm, sa, args, out, pan):
    no_panic(pan)
    ex.in_spec = True
    C, co, g = view_point(ex, sa[0])
    p = classify(ex, C, co)
    represents(ex, out, C, law(ex, C, p, p), onprops=("C12",), props=LAW[C.m])


def dbl_inline(ex, nm, a, name):
    """the body of a doubling on an element of the group: run on arbitrary coordinates of it, then read back"""
    C, co, g = view_point(ex, a[0])
    body = ex.prog.by_name[name]
    ex.inlined.add(name)
    if g is None:
        return ex.run(body, a)
    if lin_same(ex.cx, g, {}) or ex.cx.choose("the point to double is the identity"):
        ex.cx.pt_zero.append(g)
        if any(lin_same(ex.cx, h, {}) for h in ex.cx.pt_nonzero):
            raise Infeasible()
        pt, v = O, C.point(C.zero_coords(z_of(C, "g")))
    else:
        pt = xy_of(C, "g")
        if C.m == "weierstrass":
            C.F.assume_nonzero(pt[1])       # no point of order two
        v = C.point(C.affine_coords(*pt, z_of(C, "g")))
    twice = law(ex, C, pt, pt)
    out = D(ex.run(body, [ref(v)] + list(a[1:])))
    if not isinstance(out, Adt) or out.ty not in PT:
        raise Unsupported("helper that returns no point")
    for n, want in ((2, twice), (-2, twice if twice == O else C.neg(twice))):
        try:
            represents(ex, out, C, want)
        except ProofFailure:
            continue
        return C.ghost({t: c * n for t, c in g.items() if n})
    raise pf(("C16",) + LAW[C.m], "the doubling inside the multiplication is that of the group")


INLINE["point.core_doubling"] = dbl_inline


# ------------------------------------------------------------------ negation, subtraction
def neg_cases(nm):
    return cases_of(point_cases(pm(nm), lambda ex, C, pt, v: (v,)))(nm)


def neg_check(ex, nm, sa, args, out, pan):
    no_panic(pan)
    ex.in_spec = True
    C, co, g = view_point(ex, sa[0])
    p = classify(ex, C, co)
    represents(ex, out, C, O if p == O else C.neg(p), onprops=("C12",), props=("C17",))


def neg_apply(ex, nm, a):
    C, co, g = view_point(ex, a[0])
    if g is not None:
        return C.ghost({k: -c for k, c in g.items()})
    p = classify(ex, C, co)
    if p is None:
        raise Unsupported("coordinates that represent no point")
    return general(ex, C, O if p == O else C.neg(p))


contract("point.core_neg", on_pt("core_neg"), neg_cases, check=neg_check, private=True)(neg_apply)
contract("point.neg", lambda nm: nm.ty in PT and nm.trait == "Neg" and nm.method == "neg", neg_cases, check=neg_check,
         props=("C12", "C17"))(neg_apply)


def ghost_pair(nm):
    m = pm(nm)

    def two(ex):
        C = sym_curve(ex, m, b_one=True)
        return C.ghost({gen(ex, "P"): ONE}), C.ghost({gen(ex, "Q"): ONE})

    def same_pt(ex):
        C = sym_curve(ex, m, b_one=True)
        p = gen(ex, "P")
        return C.ghost({p: ONE}), C.ghost({p: ONE})

    def diff(what):
        def f(ex):
            C = sym_curve(ex, m, b_one=True)
            E = other_curve(ex, C, what)
            return C.ghost({gen(ex, "P"): ONE}), E.ghost({gen(ex, "Q"): ONE})
        return f
    return cases_of([("two points", two), ("a point twice", same_pt)] +
                    [(f"!different curves ({w})", diff(w)) for w in differences(m)])(nm)


@contract("point.sub", lambda nm: nm.ty in PT and nm.trait == "Sub" and nm.method == "sub", ghost_pair,
          props=("C09", "C17"), check=lambda *a: sub_check(*a))
def _(ex, nm, a):
    C, g = lin_of(ex, a[0])
    E, h = lin_of(ex, a[1])
    if not curves_equal(ex, C, E):
        raise Panic("points of different curves")
    if g is None or h is None:
        raise Unsupported("difference of points in coordinates")
    return C.ghost(lin_add(g, h, -1))


def sub_check(ex, nm, sa, args, out, pan):
    ex.in_spec = True
    C, g = lin_of(ex, sa[0])
    E, h = lin_of(ex, sa[1])
    if not curves_equal(ex, C, E):
        if pan is None:
            raise pf(("C09",), "subtracting points of different curves panics")
        return "value"
    no_panic(pan)
    check_lin(ex, out, C, lin_add(g, h, -1), props=("C17",))


# ------------------------------------------------------------------ multiplication by a scalar
def mul_cases(nm):
    m = pm(nm)

    def arrange(C, k):
        P_ = C.ghost({gen(C.ex): ONE})
        return (P_, k) if nm.ty in PT else (k, P_)

    def good(ex):
        C = sym_curve(ex, m, b_one=True)
        return arrange(C, mk_sc(ex, f"{m}::scalar::Scalar", C.r, P(ex.cx.ffresh("k"))))

    def bad(ex):
        C = sym_curve(ex, m, b_one=True)
        q = P(ex.cx.fresh("q"))
        ex.cx.int_assume("le", P(2) - q)
        ex.cx.int_assume("eq", q - C.r, False)
        return arrange(C, mk_sc(ex, f"{m}::scalar::Scalar", q, P(ex.cx.ffresh("k"))))
    return cases_of([("matching group", good), ("!another group", bad)])(nm)


def mul_parts(ex, a):
    p, k = a[0], a[1]
    if D(p).ty in SC:
        p, k = k, p
    C, g = lin_of(ex, p)
    r, s = view_sc(ex, k)
    return C, g, r, ex.cx.lift(r, s)


def scaled(ex, C, g, k):
    if g is None:
        raise Unsupported("multiple of a point in coordinates")
    return C.ghost({t: c * k for t, c in g.items() if not (c * k).is_zero()})


@contract("point.mul", lambda nm: nm.trait == "Mul" and nm.method == "mul" and
          (nm.ty in PT and nm.targ in SC or nm.ty in SC and nm.targ in PT), mul_cases, props=("C09", "C13", "C16"),
          loops=lambda ex, nm, f: mul_loop(ex, nm, f),
          check=lambda *a: mul_check(*a))
def _(ex, nm, a):
    C, g, r, k = mul_parts(ex, a)
    if not same(ex, r, C.r):
        raise Panic("scalar of another group")
    return scaled(ex, C, g, k)


def mul_check(ex, nm, sa, args, out, pan):
    ex.in_spec = True
    C, g, r, k = mul_parts(ex, sa)
    if not same(ex, r, C.r):
        if pan is None:
            raise pf(("C09",), "multiplying by a scalar of another group panics")
        return "value"
    no_panic(pan)
    check_lin(ex, out, C, {t: c * k for t, c in g.items()}, props=("C16",))


def core_mul_cases(nm):
    m = pm(nm)

    def good(ex):
        C = sym_curve(ex, m, b_one=True)
        return C.ghost({gen(ex): ONE}), mk_sc(ex, f"{m}::scalar::Scalar", C.r, P(ex.cx.ffresh("k")))
    return cases_of([("any scalar", good)])(nm)


class DoubleAndAdd:
    """left-to-right: the accumulator is floor(k / 2^j) P before the bits j-1 ... 0 are consumed (double and add); a second
    one is P more (Montgomery ladder)"""

    def __init__(self, it, qs, value, base, flags):
        self.it, self.qs, self.value, self.base, self.flags = it, qs, value, base, flags

    def at(self, m, off):
        return {t: c * (m + off) for t, c in self.base.items()}

    def enter(self, ex, fr):
        cx = ex.cx
        it = fr.L[self.it]
        n = cx.bits(self.value)
        same_iter_aux(ex, it, mk_iter(ex, it.ty, self.value, n - 1, True))
        for q, off in self.qs:
            C, g = lin_of(ex, fr.L[q])
            if g is None or not lin_same(cx, g, self.at(ZERO, off)):
                raise AuxFailure("the accumulator starts as the identity")
        self.C = C
        j = self.j = P(cx.fresh("j"))
        cx.int_assume("le", -j)
        cx.int_assume("le", j - n)
        if cx.eq(j, 0):
            self.m, i = self.value, P(2 ** 64 - 1)
        else:
            # m = floor(k / 2^j); floor(k / 2^(j-1)) = 2 m + (bit j-1 of k)
            self.m, i = P(cx.fresh("m")), j - 1
        fr.L[self.it] = in_loop(ex, mk_iter(ex, it.ty, self.value, i, True))
        for q, off in self.qs:
            fr.L[q] = C.ghost(self.at(self.m, off))
        return {self.it} | {q for q, _ in self.qs} | set(self.flags)

    def step(self, ex, fr):
        cx = ex.cx
        j = self.j
        b = bit_of(ex, self.value, j - 1)
        i = P(2 ** 64 - 1) if cx.eq(j, 1) else j - 2
        same_iter_aux(ex, fr.L[self.it], mk_iter(ex, fr.L[self.it].ty, self.value, i, True))
        for q, off in self.qs:
            check_aux(ex, fr.L[q], self.C, self.at(self.m * 2 + (1 if b else 0), off))
        for k, v in self.flags.items():
            if fr.L[k] is not v:
                raise AuxFailure("flag changes in the loop")


class RightToLeft:
    """the accumulator is (k mod 2^j) P and the addend 2^j P before the bits j, j+1, ... are consumed"""

    def __init__(self, it, acc, add, value, base, flags):
        self.it, self.acc, self.add, self.value, self.base, self.flags = it, acc, add, value, base, flags

    def enter(self, ex, fr):
        cx = ex.cx
        it = fr.L[self.it]
        same_iter_aux(ex, it, mk_iter(ex, it.ty, self.value, ZERO, False))
        C, g = lin_of(ex, fr.L[self.acc])
        if g is None or not lin_same(cx, g, {}):
            raise AuxFailure("the accumulator starts as the identity")
        check_aux(ex, fr.L[self.add], C, self.base)
        self.C = C
        n = cx.bits(self.value)
        j = self.j = P(cx.fresh("j"))
        cx.int_assume("le", -j)
        cx.int_assume("le", j - n)
        self.t = P(cx.fresh("2^j"))
        self.m = self.value if cx.eq(j, n) else P(cx.fresh("m"))     # k mod 2^j
        fr.L[self.it] = in_loop(ex, mk_iter(ex, it.ty, self.value, j, False))
        fr.L[self.acc] = C.ghost({t: c * self.m for t, c in self.base.items()})
        fr.L[self.add] = C.ghost({t: c * self.t for t, c in self.base.items()})
        return {self.it, self.acc, self.add} | set(self.flags)

    def step(self, ex, fr):
        cx = ex.cx
        b = bit_of(ex, self.value, self.j)
        same_iter_aux(ex, fr.L[self.it], mk_iter(ex, fr.L[self.it].ty, self.value, self.j + 1, False))
        check_aux(ex, fr.L[self.acc], self.C, {t: c * (self.m + (self.t if b else ZERO)) for t, c in self.base.items()})
        check_aux(ex, fr.L[self.add], self.C, {t: c * self.t * 2 for t, c in self.base.items()})
        for k, v in self.flags.items():
            if fr.L[k] is not v:
                raise AuxFailure("flag changes in the loop")


def same_iter_aux(ex, out, exp):
    try:
        same_iter(ex, out, exp)
    except ProofFailure as e:
        raise AuxFailure(e.what, e.detail)


def check_aux(ex, v, C, want):
    try:
        check_lin(ex, v, C, want, "accumulator")
    except ProofFailure as e:
        raise AuxFailure(e.what, e.detail)


def captured_base(ex, v):
    for x in v.f if isinstance(v, (Adt, Tup)) else ():
        x = D(x)
        if isinstance(x, Adt) and x.ty in PT:
            l = lin_of(ex, x)[1]
            if l:
                return l
    return None


def mul_fold(ex, it, start, fn):
    """fold over the bits from the most significant one: the rule of DoubleAndAdd"""
    start = D(start)
    if not (isinstance(it, Adt) and it.ty in ITN and isinstance(start, Adt) and start.ty in PT):
        return None
    v, base = ex.field(it, "v"), captured_base(ex, D(fn))
    if not isinstance(v, Ghost) or v.d["value"].is_const() or not base or not ex.field(it, "is_lr"):
        return None
    cx, k = ex.cx, v.d["value"]
    n = cx.bits(k)
    same_iter_aux(ex, it, mk_iter(ex, it.ty, k, n - 1, True))
    C, g = lin_of(ex, start)
    if g is None or not lin_same(cx, g, {}):
        raise AuxFailure("the accumulator starts as the identity")
    j = P(cx.fresh("j"))
    cx.int_assume("le", -j)
    cx.int_assume("le", j - n)
    cx.assumed = True
    if cx.eq(j, 0):
        return C.ghost({t: c * k for t, c in base.items()})
    m = P(cx.fresh("m"))
    b = bit_of(ex, k, j - 1)
    out = ex.call_value(fn, [C.ghost({t: c * m for t, c in base.items()}), b])
    check_aux(ex, out, C, {t: c * (m * 2 + (1 if b else 0)) for t, c in base.items()})
    raise PathEnd()


def mul_loop(ex, nm, f):
    ex.fold_rule = mul_fold

    def make(ex, fr, mods):
        its = [i for i, v in mods.items() if isinstance(v, Adt) and v.ty in ITN]
        pts = [i for i, v in mods.items() if isinstance(v, Adt) and v.ty in PT]
        flags = {i: v for i, v in mods.items() if isinstance(v, bool)}
        if len(its) != 1:
            return None
        it = fr.L[its[0]]
        v = ex.field(it, "v")
        if not isinstance(v, Ghost) or v.kind != "digits":
            return None
        base = None
        for x in fr.L[1:1 + f["args"]]:
            x = D(x)
            if isinstance(x, Adt) and x.ty in PT:
                base = lin_of(ex, x)[1]
        if not base:
            return None
        if ex.field(it, "is_lr"):
            qs = []
            for q in pts:
                g = lin_of(ex, fr.L[q])[1]
                if g is None:
                    return None
                qs.append((q, ZERO if lin_same(ex.cx, g, {}) else ONE))
            if qs and len({o for _, o in qs}) == len(qs):
                return DoubleAndAdd(its[0], qs, v.d["value"], base, flags)
            return None
        if len(pts) == 2:
            g = [lin_of(ex, fr.L[i])[1] for i in pts]
            if g[0] == {}:
                return RightToLeft(its[0], pts[0], pts[1], v.d["value"], base, flags)
            if g[1] == {}:
                return RightToLeft(its[0], pts[1], pts[0], v.d["value"], base, flags)
        return None
    for n, g in ex.prog.by_name.items():
        if g["local"] and loops_of(g):
            install(ex, g, make)


@contract("point.core_mul", on_pt("core_mul"), core_mul_cases, private=True, loops=mul_loop,
          check=lambda *a: core_mul_check(*a))
def _(ex, nm, a):
    C, g, r, k = mul_parts(ex, a)
    return scaled(ex, C, g, k)


def core_mul_check(ex, nm, sa, args, out, pan):
    no_panic(pan)
    ex.in_spec = True
    C, g, r, k = mul_parts(ex, sa)
    check_lin(ex, out, C, {t: c * k for t, c in g.items()}, props=("C16",))


# ------------------------------------------------------------------ lemmas
@lemma("edwards.denominators", [("any two points", lambda ex: (sym_curve(ex, "edwards"),))], props=("C14", "C12", "C21"))
def _(ex, C):
    """if a is a nonzero square and d is not a square then d x1 x2 y1 y2 is neither 1 nor -1, and d x^2 is not 1.

    With a = al^2, e = d x1 x2 y1 y2 = s in {1, -1} and E1, E2 the (vanishing) curve equations,
      (b x1 + s y1)^2 - d (x1 y1 (b x2 + y2))^2 = E1 - d (x1 y1)^2 E2 + (s - e)(s + e) + 2 b x1 y1 (s - e) = 0
    for b = al and b = -al; al x2 + y2 and -al x2 + y2 are not both zero because x2 and 2 al are not, hence d is the
    square of a quotient; d x^2 = 1 makes d the square of 1/x."""
    F = C.F
    al, d = P(ex.cx.ffresh("al")), P(ex.cx.ffresh("dd"))
    x1, y1, x2, y2 = (P(ex.cx.ffresh(n)) for n in ("x1", "y1", "x2", "y2"))
    for s in (1, -1):
        for b in (al, -al):
            a = b * b
            e = d * x1 * x2 * y1 * y2
            e1 = a * x1 * x1 + y1 * y1 - 1 - d * x1 * x1 * y1 * y1
            e2 = a * x2 * x2 + y2 * y2 - 1 - d * x2 * x2 * y2 * y2
            lhs = (b * x1 + s * y1) ** 2 - d * (x1 * y1 * (b * x2 + y2)) ** 2
            rhs = e1 - d * x1 * x1 * y1 * y1 * e2 + (s - e) * (s + e) + 2 * b * x1 * y1 * (s - e)
            if not F.known_zero(lhs - rhs):
                raise ProofFailure("the identity behind the completeness of the Edwards law")
