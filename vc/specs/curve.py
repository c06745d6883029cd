"""Vocabulary of curves and points, and contracts of src/*/curve.rs (C12), without decoding."""
from ..engine import contract, lemma
from ..lib import *
from ..ext import D, DR
from .fp import cases_of
from .scalar import mk_sc, model

CV = {f"{m}::curve::Curve": m for m in MODELS}
PT = {f"{m}::point::Point": m for m in MODELS}
PC = {f"{m}::point::ProyCoordinates": m for m in MODELS}
PARAMS = {"weierstrass": ("a", "b"), "montgomery": ("a", "b", "s"), "edwards": ("a", "d")}
COORDS = {"weierstrass": ("x", "y", "z"), "montgomery": ("x", "y", "z"), "edwards": ("x", "y", "t", "z")}


def pf(props, what, detail=""):
    """an obligation that belongs to some of the properties of the contract only"""
    e = ProofFailure(what, detail)
    e.props = props
    return e


class Curve:
    """a curve as a mathematical object: field, coefficients, and the other data carried along"""

    def __init__(self, ex, m, pk, par, r=None, g=None, h=None):
        self.ex, self.m, self.pk, self.par = ex, m, P(pk), dict(par)
        self.F = ex.cx.field(self.pk)
        self.r, self.g, self.h = r, g, h

    def fill(self):
        """arbitrary order, generator and cofactor"""
        cx = self.ex.cx
        if self.r is None:
            self.r = P(cx.fresh("r"))
            cx.int_assume("le", P(2) - self.r)
        if self.h is None:
            self.h = P(cx.fresh("h"))
            cx.int_assume("le", P(1) - self.h)
        if self.g is None:
            self.g = (P(cx.ffresh("gx")), P(cx.ffresh("gy")))
        return self

    def handle(self):
        return mk_fp(self.ex, self.pk)

    def elt(self, poly):
        return elt(self.ex, self.handle(), poly)

    def adt(self):
        ex = self.ex
        self.fill()
        return ex.adt(f"{self.m}::curve::Curve", f=self.handle(), r=Big(self.r, True), h=Big(self.h, True),
                      gx=self.elt(self.g[0]), gy=self.elt(self.g[1]), **{k: self.elt(v) for k, v in self.par.items()})

    def point(self, co):
        return self.ex.adt(f"{self.m}::point::Point", e=self.adt(), c=coords(self.ex, self.m, self.pk, co))

    def ghost(self, lin):
        """a point known only as an element of the group: {generator atom: integer coefficient}"""
        return self.ex.adt(f"{self.m}::point::Point", e=self.adt(), c=Ghost("pt", lin=dict(lin)))

    # ------------------------------------------------------------ mathematics
    def eq_affine(self, x, y):
        """zero iff (x, y) is on the curve"""
        q = self.par
        if self.m == "weierstrass":
            return y * y - x * x * x - q["a"] * x - q["b"]
        if self.m == "montgomery":
            return q["b"] * y * y - x * x * x - q["a"] * x * x - x
        return q["a"] * x * x + y * y - 1 - q["d"] * x * x * y * y

    def on_curve(self, co):
        """do the projective coordinates satisfy the equations of the model?"""
        F, q = self.F, self.par
        if self.m == "edwards":
            x, y, t, z = co
            return F.is_zero(q["a"] * x * x + y * y - q["d"] * t * t - z * z) and F.is_zero(x * y - t * z)
        x, y, z = co
        if self.m == "weierstrass":
            return F.is_zero(x * x * x + q["a"] * x * z * z + q["b"] * z * z * z - y * y * z)
        return F.is_zero(q["b"] * y * y * z - x * x * x - q["a"] * x * x * z - x * z * z)

    def zero_coords(self, u):
        """representation of the neutral element with free nonzero coordinate u"""
        return (ZERO, u, ZERO, u) if self.m == "edwards" else (ZERO, u, ZERO)

    def affine_coords(self, x, y, z):
        F = self.F
        c = (x * z, y * z, x * y * z, z) if self.m == "edwards" else (x * z, y * z, z)
        return tuple(F.reduce(v) for v in c)

    def neg(self, pt):
        x, y = pt
        return (-x, y) if self.m == "edwards" else (x, -y)


def coords(ex, m, pk, co):
    h = mk_fp(ex, pk)
    return ex.adt(f"{m}::point::ProyCoordinates", **{n: elt(ex, h, v) for n, v in zip(COORDS[m], co)})


def view_curve(ex, v):
    v = D(v)
    if not isinstance(v, Adt) or v.ty not in CV:
        raise Unsupported(f"curve {v!r}")
    m = CV[v.ty]
    pk = fp_p(ex, ex.field(v, "f"))
    par = {}
    for n in PARAMS[m] + ("gx", "gy"):
        q, par[n], _ = view(ex, ex.field(v, n), f"curve parameter {n}")
        if not same(ex, q, pk):
            raise ProofFailure(f"curve parameter {n} lies in the curve's field")
    g = par.pop("gx"), par.pop("gy")
    return Curve(ex, m, pk, par, ex.field(v, "r").p, g, ex.field(v, "h").p)


def view_coords(ex, c, pk):
    c = D(c)
    if not isinstance(c, Adt) or c.ty not in PC:
        raise Unsupported(f"coordinates {c!r}")
    m = PC[c.ty]
    out = []
    for n in COORDS[m]:
        q, v, _ = view(ex, ex.field(c, n), f"coordinate {n}")
        if not same(ex, q, pk):
            raise ProofFailure(f"coordinate {n} lies in the curve's field")
        out.append(v)
    return tuple(out)


def view_point(ex, v):
    """(curve, coordinates or None, group element or None)"""
    v = D(v)
    if not isinstance(v, Adt) or v.ty not in PT:
        raise Unsupported(f"point {v!r}")
    C = view_curve(ex, ex.field(v, "e"))
    c = ex.field(v, "c")
    if isinstance(c, Ghost):
        return C, None, c.d["lin"]
    return C, view_coords(ex, c, C.pk), None


O = "identity"


def classify(ex, C, co):
    """the point of the curve that projective coordinates represent: O or (x, y); None for no point"""
    F = C.F
    z = co[-1]
    if C.m == "edwards":
        if F.is_zero(z):
            return None
        zi = F.inv(z)
        return F.reduce(co[0] * zi), F.reduce(co[1] * zi)
    if F.is_zero(z):
        if not F.is_zero(co[0]) or F.is_zero(co[1]):
            return None
        return O
    zi = F.inv(z)
    return F.reduce(co[0] * zi), F.reduce(co[1] * zi)


def is_neutral(C, pt):
    if C.m == "edwards":
        return pt != O and C.F.is_zero(pt[0]) and C.F.is_zero(pt[1] - 1)
    return pt == O


def same_curve(ex, out, C, what="result"):
    try:
        compare(ex, ex.field(D(out), "e"), C.adt(), what + ".e")
    except ProofFailure as e:
        e.props = None
        raise


def nonzero_or_unknown(F, p, what):
    """p is nonzero; undecidable by the facts at hand means undecided, not violated"""
    r = F.classify(p)
    if r is False:
        return
    if r is True:
        raise ProofFailure(what)
    raise Unsupported(f"cannot decide: {what}")


def represents(ex, out, C, pt, what="result", onprops=None, props=None):
    """out is a point of C representing pt"""
    out = D(out)
    same_curve(ex, out, C, what)
    _, co, g = view_point(ex, out)
    F = C.F
    if co is None:
        raise Unsupported("group element without coordinates")
    if onprops is not None and not C.on_curve(co):
        raise pf(onprops + (props or ()), f"{what} satisfies the curve equation")
    if C.m == "edwards":
        x, y, t, z = co
        if pt == O:
            pt = (ZERO, ONE)
        for name, a, b in (("x", x, pt[0]), ("y", y, pt[1]), ("t", t, pt[0] * pt[1])):
            if not F.is_zero(a - b * z):
                raise pf(props, f"{what} is the specified point ({name})")
        nonzero_or_unknown(F, z, f"{what} has a nonzero denominator coordinate")
        return
    x, y, z = co
    if pt == O:
        for name, a in (("x", x), ("z", z)):
            if not F.is_zero(a):
                raise pf(props, f"{what} is the identity ({name} = 0)")
        nonzero_or_unknown(F, y, f"{what} is the identity (y != 0)")
        return
    for name, a, b in (("x", x, pt[0]), ("y", y, pt[1])):
        if not F.is_zero(a - b * z):
            raise pf(props, f"{what} is the specified point ({name})")
    nonzero_or_unknown(F, z, f"{what} has a nonzero denominator coordinate")


# ------------------------------------------------------------------ symbolic inputs
def sym_curve(ex, m, b_one=False, prime=None, name=""):
    """an arbitrary valid curve of the model (validity conditions are stated where they are used)"""
    cx = ex.cx
    pk = prime if prime is not None else sym_prime(ex, "p" + name, lo=5 if m == "weierstrass" else 3)
    par = {n: P(cx.ffresh(n + name)) for n in PARAMS[m]}
    F = cx.field(pk)
    if m == "montgomery":
        if b_one:
            par["b"] = ONE
        else:
            F.assume_nonzero(par["b"])
    if m == "edwards":
        al = P(cx.ffresh("alpha" + name))
        F.assume_nonzero(al)
        par["a"] = F.reduce(al * al)
        F.assume_nonzero(par["d"])
        F.assume_square(par["d"], False)
    return Curve(ex, m, pk, par).fill()


def z_of(C, i=""):
    z = P(C.ex.cx.ffresh("z" + i))
    C.F.assume_nonzero(z)
    return z


def xy_of(C, i="", **kw):
    """an affine point of the curve"""
    cx = C.ex.cx
    x, y = P(cx.ffresh("x" + i)), P(cx.ffresh("y" + i))
    if C.m == "edwards":
        # 1 - d x^2 != 0 because d is not a square (lemma edwards.denominators)
        C.F.assume_nonzero(1 - C.par["d"] * x * x)
    C.F.assume_zero(C.eq_affine(x, y))
    return C.F.reduce(x), C.F.reduce(y)


def point_cases(m, f, second=None):
    """[(label, builder)]: one point in every representation"""
    def zero(ex):
        C = sym_curve(ex, m)
        u = P(ex.cx.ffresh("u"))
        C.F.assume_nonzero(u)
        return f(ex, C, O, C.point(C.zero_coords(u)))

    def aff(ex):
        C = sym_curve(ex, m)
        xy = xy_of(C)
        return f(ex, C, xy, C.point(C.affine_coords(*xy, z_of(C))))
    return ([] if m == "edwards" else [("the identity", zero)]) + [
        ("any point" if m == "edwards" else "affine point", aff)]


def pm(nm):
    """the model of a function of a point or curve type"""
    for t in (nm.ty, nm.targ):
        if t in CV:
            return CV[t]
        if t in PT:
            return PT[t]
    raise Unsupported(nm.raw)


def cv(method, trait="EllipticCurve"):
    return lambda nm: nm.ty in CV and nm.trait == trait and nm.method == method


# ------------------------------------------------------------------ structural
def two_curves(nm):
    m = pm(nm)

    def eqv(ex):
        C = sym_curve(ex, m)
        return C.adt(), C.adt()

    def differ(what):
        def g(ex):
            C = sym_curve(ex, m)
            cx = ex.cx
            d = Curve(ex, m, C.pk, C.par, C.r, C.g, C.h)
            if what in C.par:
                d.par[what] = P(cx.ffresh(what + "'"))
                C.F.assume_nonzero(d.par[what] - C.par[what])
            elif what == "r":
                d.r = P(cx.fresh("r'"))
                cx.int_assume("eq", d.r - C.r, False)
            elif what == "p":
                d = sym_curve(ex, m, name="'")
                cx.int_assume("eq", d.pk - C.pk, False)
            return C.adt(), d.adt()
        return g
    return [("same parameters", eqv)] + [(f"different {w}", differ(w)) for w in PARAMS[m] + ("r", "p") if w != "s"]


def curves_equal(ex, C, E):
    """the same parameters"""
    if C.m != E.m or not same(ex, C.pk, E.pk):
        return False
    for n in C.par:
        if not C.F.is_zero(C.par[n] - E.par[n]):
            return False
    if not same(ex, C.r, E.r) or not same(ex, C.h, E.h):
        return False
    return all(C.F.is_zero(u - v) for u, v in zip(C.g, E.g))


@contract("curve.eq", lambda nm: nm.ty in CV and nm.trait == "PartialEq" and nm.method in ("eq", "ne"),
          lambda nm: cases_of(two_curves(nm))(nm), props=("C09",))
def _(ex, nm, a):
    r = curves_equal(ex, view_curve(ex, a[0]), view_curve(ex, a[1]))
    return r if nm.method == "eq" else not r


@contract("curve.clone", lambda nm: nm.ty in CV and nm.trait == "Clone" and nm.method == "clone",
          lambda nm: cases_of([("any curve", lambda ex: (sym_curve(ex, pm(nm)).adt(),))])(nm), props=("C09",))
def _(ex, nm, a):
    return view_curve(ex, a[0]).adt()


@contract("point.clone", lambda nm: (nm.ty in PT or nm.ty in PC) and nm.trait == "Clone" and nm.method == "clone",
          lambda nm: clone_cases(nm), props=("C18",))
def _(ex, nm, a):
    v = D(a[0])
    if nm.ty in PC:
        return copy_coords(ex, v)
    C, co, g = view_point(ex, v)
    return C.ghost(g) if co is None else C.point(co)


def copy_coords(ex, v):
    m = PC[v.ty]
    pk = fp_p(ex, ex.field(D(ex.field(v, "x")), "f"))
    return coords(ex, m, pk, view_coords(ex, v, pk))


def clone_cases(nm):
    m = PT.get(nm.ty) or PC[nm.ty]

    def g(ex):
        C = sym_curve(ex, m)
        co = tuple(P(ex.cx.ffresh(n)) for n in COORDS[m])
        return (C.point(co) if nm.ty in PT else coords(ex, m, C.pk, co),)
    return cases_of([("any coordinates", g)])(nm)


# ------------------------------------------------------------------ membership and construction
def any_coords(nm, f, **kw):
    m = pm(nm)

    def g(ex):
        C = sym_curve(ex, m)
        co = tuple(P(ex.cx.ffresh(n)) for n in COORDS[m])
        return f(ex, C, co)
    return cases_of([("any coordinates", g)])(nm)


@contract("curve.is_on_curve", cv("is_on_curve"),
          lambda nm: any_coords(nm, lambda ex, C, co: (C.adt(), C.point(co))), props=("C12",))
def _(ex, nm, a):
    C = view_curve(ex, a[0])
    _, co, g = view_point(ex, a[1])
    if co is None:
        return True
    return C.on_curve(co)


@contract("curve.new_proy_point", lambda nm: nm.ty in CV and nm.trait is None and nm.method == "new_proy_point",
          lambda nm: any_coords(nm, lambda ex, C, co: (C.adt(), coords(ex, C.m, C.pk, co))), props=("C12",),
          private=True)
def _(ex, nm, a):
    C = view_curve(ex, a[0])
    co = view_coords(ex, a[1], C.pk)
    if not C.on_curve(co):
        raise Panic("not a valid point")
    return C.point(co)


def one_xy(C, x, y):
    return C.affine_coords(x, y, ONE)


def xy_case(nm):
    m = pm(nm)

    def g(ex):
        C = sym_curve(ex, m)
        return C.adt(), C.elt(P(ex.cx.ffresh("x"))), C.elt(P(ex.cx.ffresh("y")))
    return cases_of([("any coordinates", g)])(nm)


@contract("curve.new_point", cv("new_point"), xy_case, props=("C12",))
def _(ex, nm, a):
    C = view_curve(ex, a[0])
    x, y = res(ex, a[1]), res(ex, a[2])
    if not C.F.is_zero(C.eq_affine(x, y)):
        raise Panic("not a valid point")
    return C.point(one_xy(C, x, y))


@contract("curve.try_new_point", lambda nm: nm.ty in CV and nm.trait is None and nm.method == "try_new_point",
          xy_case, props=("C12",), private=True)
def _(ex, nm, a):
    C = view_curve(ex, a[0])
    x, y = res(ex, a[1]), res(ex, a[2])
    if not C.F.is_zero(C.eq_affine(x, y)):
        return ex.err(Opaque("io::Error"))
    return ex.ok(C.point(one_xy(C, x, y)))


def self_case(nm):
    return cases_of([("any curve", lambda ex: (sym_curve(ex, pm(nm)).adt(),))])(nm)


@contract("curve.identity", cv("identity"), self_case, props=("C12", "C18"), check=lambda *a: identity_check(*a))
def _(ex, nm, a):
    C = view_curve(ex, a[0])
    u = P(ex.cx.ffresh("u"))
    C.F.assume_nonzero(u)
    return C.point(C.zero_coords(u))


def identity_check(ex, nm, sa, args, out, pan):
    if pan is not None:
        raise ProofFailure("does not panic", pan.msg)
    ex.in_spec = True
    represents(ex, out, view_curve(ex, sa[0]), O, onprops=())


def gen_case(nm):
    def g(ex):
        C = sym_curve(ex, pm(nm))
        if C.m == "edwards":
            C.F.assume_nonzero(1 - C.par["d"] * C.g[0] * C.g[0])
        C.F.assume_zero(C.eq_affine(*C.g))
        return C.adt(),

    def bad(ex):
        C = sym_curve(ex, pm(nm))
        C.F.assume_nonzero(C.eq_affine(*C.g))
        return C.adt(),
    return cases_of([("generator on the curve", g), ("!generator off the curve", bad)])(nm)


@contract("curve.get_generator", cv("get_generator"), gen_case, props=("C12",))
def _(ex, nm, a):
    C = view_curve(ex, a[0])
    if not C.F.is_zero(C.eq_affine(*C.g)):
        raise Panic("not a valid point")
    return C.point(one_xy(C, *C.g))


@contract("curve.get_order", cv("get_order"), self_case, props=("C29",))
def _(ex, nm, a):
    return Big(view_curve(ex, a[0]).r, True)


@contract("curve.get_cofactor", cv("get_cofactor"), self_case, props=("C29",))
def _(ex, nm, a):
    return Big(view_curve(ex, a[0]).h)


@contract("curve.get_field", cv("get_field"), self_case, props=("C29",))
def _(ex, nm, a):
    return view_curve(ex, a[0]).handle()


@contract("curve.new_scalar", cv("new_scalar"),
          lambda nm: cases_of([("any integer", lambda ex: (sym_curve(ex, pm(nm)).adt(), Big(P(ex.cx.fresh("n")))))])(nm),
          props=("C10",))
def _(ex, nm, a):
    C = view_curve(ex, a[0])
    return mk_sc(ex, f"{C.m}::scalar::Scalar", C.r, ex.cx.image(D(a[1]).p, C.r))
