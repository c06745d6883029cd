"""Maps between named curves: edwards25519-curve25519 (C26), edwards448-curve448 (C27), the RFC 9380 isogenies (C28)."""
from ..engine import contract, lemma
from ..lib import *
from ..ext import D
from ..values import Box
from ..published import CURVES, ISOGENIES, P25519, P448, additive_facts, isogeny_facts, kernel
from ..numth import legendre
from .fp import cases_of
from .curve import *
from .instances import instance, published
from .maps import same_points
from .point import law, valid_pair

R = "instances::rational_maps::"
ED25519, ED448 = R + "Ed2Mt25519", R + "Ed4isoMt448"
C25519 = 6853475219497561581579357271197624642482790079785650197046958215289687604742     # c^2 = -486664


def member(ty, trait, method):
    return lambda nm: nm.ty == ty and nm.trait == trait and nm.method == method


# ------------------------------------------------------------------ the objects
def model25519(ex):
    """(object, E, M, c): a = -1, d = -1 - 4 / c^2, A = -(c^2 + 2), b = 1, with -1 a square and d none"""
    pk = sym_prime(ex, lo=7, m4=1)
    F = ex.cx.field(pk)
    c = P(ex.cx.ffresh("c"))
    F.assume_nonzero(c)
    d = F.reduce(-1 - 4 * F.inv(F.reduce(c * c)))
    E = Curve(ex, "edwards", pk, {"a": P(-1), "d": d}).fill()
    M = Curve(ex, "montgomery", pk, {"a": F.reduce(-c * c - 2), "b": ONE, "s": ONE}).fill()
    F.assume_nonzero(F.reduce(c * c + 4))
    F.assume_square(F.reduce(c * c + 4), False)
    return ex.adt(ED25519, e0=E.adt(), e1=M.adt(), invsqr_d=E.elt(c)), E, M, c


def model448(ex):
    """(object, E, M): a = 1, A = 2 - 4 d, b = 1, p = 3 mod 4, d no square, d (d - 1) no square"""
    pk = sym_prime(ex, lo=7, m4=3)
    F = ex.cx.field(pk)
    d = P(ex.cx.ffresh("d"))
    F.assume_nonzero(d)
    F.assume_nonzero(d - 1)
    F.assume_square(d, False)
    F.assume_square(d - 1, True)
    E = Curve(ex, "edwards", pk, {"a": ONE, "d": d}).fill()
    M = Curve(ex, "montgomery", pk, {"a": F.reduce(2 - 4 * d), "b": ONE, "s": P(ex.cx.ffresh("s"))}).fill()
    return ex.adt(ED448, e0=E.adt(), e1=M.adt()), E, M


def run_ctor(ex, name):
    n = R + name
    if n not in ex.prog.by_name:
        raise Unsupported(n)
    return D(ex.run(ex.prog.by_name[n], []))


def is_named(ex, v, name):
    got, want = view_curve(ex, v), published(ex, name)
    if got.m != want.m or not curves_equal(ex, got, want):
        raise ProofFailure(f"the curve is {name}")


@lemma("edwards25519.constants", [("the map the library returns", lambda ex: ())], props=("C26",))
def _(ex):
    o = run_ctor(ex, "edwards25519_to_curve25519")
    if o.ty != ED25519:
        raise Unsupported(o.ty)
    is_named(ex, ex.field(o, "e0"), "EDWARDS25519")
    is_named(ex, ex.field(o, "e1"), "CURVE25519")
    ends(ex, o, "EDWARDS25519", "CURVE25519")
    c = res(ex, ex.field(o, "invsqr_d"))
    e, m, p = CURVES["EDWARDS25519"], CURVES["CURVE25519"], P25519
    if not same_mod(c, P(C25519), p):
        raise ProofFailure("the published square root of -486664")
    # the conditions of model25519
    v = C25519
    if not (p % 4 == 1 and (e["a"] + 1) % p == 0 and (e["d"] * v * v + v * v + 4) % p == 0 and m["b"] == 1
            and (m["a"] + v * v + 2) % p == 0 and legendre(v * v + 4, p) == -1):
        raise Unsupported("table of edwards25519")


@lemma("edwards448.constants", [("the map the library returns", lambda ex: ())], props=("C27",))
def _(ex):
    o = run_ctor(ex, "edwards448_to_curve448")
    if o.ty != ED448:
        raise Unsupported(o.ty)
    is_named(ex, ex.field(o, "e0"), "EDWARDS448")
    is_named(ex, ex.field(o, "e1"), "CURVE448")
    ends(ex, o, "EDWARDS448", "CURVE448")
    e, m, p = CURVES["EDWARDS448"], CURVES["CURVE448"], P448
    if not (p % 4 == 3 and e["a"] == 1 and (m["a"] - 2 + 4 * e["d"]) % p == 0 and m["b"] == 1
            and legendre(e["d"], p) == -1 and legendre(e["d"] - 1, p) == 1):
        raise Unsupported("table of edwards448")


def ends(ex, o, dom, cod):
    """what the map says about its own domain and codomain"""
    for meth, name in (("domain", dom), ("codomain", cod)):
        fs = [n for n in ex.prog.by_name if n.startswith(f"<{o.ty} as ") and n.endswith(">::" + meth)]
        if len(fs) != 1:
            raise Unsupported(f"{meth} of {o.ty}")
        try:
            v = ex.run(ex.prog.by_name[fs[0]], [ref(o)])
        except Panic as e:
            raise ProofFailure(f"{meth} is defined", e.msg)
        is_named(ex, v, name)


def same_mod(a, b, p):
    return a.is_const() and b.is_const() and (a.cval() - b.cval()) % p == 0


# ------------------------------------------------------------------ points
def ed_point(E, tag=""):
    """any point of the Edwards curve"""
    x, y = xy_of(E, tag)
    return (x, y), E.point(E.affine_coords(x, y, z_of(E, tag)))


def mt_point(M, kind, tag=""):
    """a point of a Montgomery curve whose only point of order two is (0, 0), and with no point of abscissa -1"""
    ex, F = M.ex, M.F
    if kind == "identity":
        u = P(ex.cx.ffresh("w" + tag))
        F.assume_nonzero(u)
        return O, M.point(M.zero_coords(u))
    if kind == "two":
        return (ZERO, ZERO), M.point(M.affine_coords(ZERO, ZERO, z_of(M, tag)))
    A = M.par["a"]
    u, v = P(ex.cx.ffresh("u" + tag)), P(ex.cx.ffresh("v" + tag))
    # A^2 - 4 and A - 2 are not squares: v = 0 would make A^2 - 4 = (2 u + A)^2, u = -1 would make A - 2 = v^2
    for n in (A * A - 4,) + ((A - 2,) if M.no_minus_one else ()):
        n = F.reduce(n)
        F.assume_nonzero(n)
        if F.is_square(n):
            raise Infeasible()
    F.assume_nonzero(u)
    F.assume_nonzero(v)
    F.assume_nonzero(u * u + A * u + 1)
    if M.no_minus_one:
        F.assume_nonzero(u + 1)
    F.assume_zero(M.eq_affine(u, v))
    u, v = F.reduce(u), F.reduce(v)
    return (u, v), M.point(M.affine_coords(u, v, z_of(M, tag)))


KINDS = (("the identity", "identity"), ("the point (0, 0)", "two"), ("any other point", "other"))


def expect_point(ex, out, C, want, props=None):
    out = D(out)
    same_curve(ex, out, C)
    _, co, _ = view_point(ex, out)
    if not C.on_curve(co):
        raise ProofFailure("the result satisfies the curve equation")
    got = classify(ex, C, co)
    if got is None:
        raise ProofFailure("the result is a point")
    if not same_points(ex, C, got, want):
        raise ProofFailure("the image is the specified point", f"{got} against {want}"[:300])
    return got


def image_check(ex, nm, sa, args, out, pan):
    C, want = ex.spec
    if pan is not None:
        raise ProofFailure("is defined for every point", pan.msg)
    ex.in_spec = True
    expect_point(ex, out, C, want(ex))


# ------------------------------------------------------------------ 25519
def push25519(E, M, c, pt):
    F = E.F
    x, y = pt
    if F.is_zero(x):
        return O if F.is_zero(y - 1) else (ZERO, ZERO)
    w = F.inv(F.reduce(1 - y))
    return F.reduce((1 + y) * w), F.reduce(c * (1 + y) * w * F.inv(x))


def pull25519(E, M, c, pt):
    F = E.F
    if pt == O:
        return ZERO, ONE
    u, v = pt
    if F.is_zero(u):
        return ZERO, P(-1)
    return F.reduce(c * u * F.inv(v)), F.reduce((u - 1) * F.inv(F.reduce(u + 1)))


def ed25519_special(E, x, y):
    """x = 0 only at (0, 1) and (0, -1); y = 1 or y = -1 only with x = 0"""
    F = E.F
    if F.is_zero(x):
        return
    F.is_zero(y - 1)
    F.is_zero(y + 1)


def push25519_case(ex):
    o, E, M, c = model25519(ex)
    xy, p = ed_point(E)
    ed25519_special(E, *xy)
    ex.spec = (M, lambda ex: push25519(E, M, c, xy))
    return ref(o), p


def pull25519_case(kind):
    def b(ex):
        o, E, M, c = model25519(ex)
        M.no_minus_one = True
        uv, p = mt_point(M, kind)
        ex.spec = (E, lambda ex: pull25519(E, M, c, uv))
        return ref(o), p
    return b


def nothing(ex, nm, a):
    raise Unsupported("map on a concrete object")


contract("ed25519.push", member(ED25519, "RationalMap", "push"), lambda nm: cases_of([("any point", push25519_case)])(nm),
         props=("C26", "C12"), check=image_check)(nothing)
contract("ed25519.pull", member(ED25519, "RationalMap", "pull"),
         lambda nm: cases_of([(l, pull25519_case(k)) for l, k in KINDS])(nm), props=("C26", "C12"), check=image_check)(nothing)


@lemma("ed25519.inverse", [("push then pull", lambda ex: (True, None))] + [
       (f"pull then push, {l}", (lambda k: lambda ex: (False, k))(k)) for l, k in KINDS], props=("C26",))
def _(ex, forward, kind):
    """the two maps as specified are inverse to each other"""
    o, E, M, c = model25519(ex)
    M.no_minus_one = True
    if forward:
        xy, _ = ed_point(E)
        ed25519_special(E, *xy)
        if not same_points(ex, E, pull25519(E, M, c, push25519(E, M, c, xy)), xy):
            raise ProofFailure("pull inverts push")
    else:
        uv, _ = mt_point(M, kind)
        if not same_points(ex, M, push25519(E, M, c, pull25519(E, M, c, uv)), uv):
            raise ProofFailure("push inverts pull")


# ------------------------------------------------------------------ 448
def push448(E, M, pt):
    F = E.F
    x, y = pt
    if F.is_zero(x):
        return O
    xi = F.inv(x)
    return F.reduce(y * y * xi * xi), F.reduce((2 - x * x - y * y) * y * xi ** 3)


def pull448(E, M, pt):
    F = E.F
    if pt == O or F.is_zero(pt[0]):
        return ZERO, ONE
    u, v = pt
    dx = F.reduce(u ** 4 - 2 * u ** 2 + 4 * v * v + 1)
    dy = F.reduce(u ** 5 - 2 * u * u * v * v - 2 * u ** 3 - 2 * v * v + u)
    return (F.reduce(4 * v * (u * u - 1) * F.inv(dx)),
            F.reduce(-(u ** 5 - 2 * u ** 3 - 4 * u * v * v + u) * F.inv(dy)))


def denominators448(M, u, v):
    """u^4 - 2 u^2 + 4 v^2 + 1 = (u^2 - 1)^2 + (2 v)^2 and v != 0, -1 not a square;
    u^5 - 2 u^2 v^2 - 2 u^3 - 2 v^2 + u = -u ((w + A u)^2 - (A^2 - 4) u^2), w = u^2 + 1, and A^2 - 4 not a square"""
    F, A = M.F, M.par["a"]
    dx = u ** 4 - 2 * u ** 2 + 4 * v * v + 1
    dy = u ** 5 - 2 * u * u * v * v - 2 * u ** 3 - 2 * v * v + u
    w = u * u + 1
    if not F.is_zero(dx - ((u * u - 1) ** 2 + 4 * v * v)) or not F.known_nonzero(F.reduce(v)) or F.is_square(P(-1)):
        raise Unsupported("denominator of x")
    F.assume_nonzero(F.reduce(dx))
    if not F.is_zero(dy + u * ((w + A * u) ** 2 - (A * A - 4) * u * u)) or not F.known_nonzero(F.reduce(u)) or \
            F.is_square(F.reduce(A * A - 4)):
        raise Unsupported("denominator of y")
    F.assume_nonzero(F.reduce(dy))


def push448_case(ex):
    o, E, M = model448(ex)
    xy, p = ed_point(E)
    E.F.is_zero(xy[0])
    ex.spec = (M, lambda ex: push448(E, M, xy))
    return ref(o), p


def pull448_case(kind):
    def b(ex):
        o, E, M = model448(ex)
        M.no_minus_one = False
        uv, p = mt_point(M, kind)
        if kind == "other":
            denominators448(M, *uv)
        ex.spec = (E, lambda ex: pull448(E, M, uv))
        return ref(o), p
    return b


contract("ed448.push", member(ED448, "RationalMap", "push"), lambda nm: cases_of([("any point", push448_case)])(nm),
         props=("C27", "C12"), check=image_check)(nothing)
contract("ed448.pull", member(ED448, "RationalMap", "pull"),
         lambda nm: cases_of([(l, pull448_case(k)) for l, k in KINDS])(nm), props=("C27", "C12"), check=image_check)(nothing)


# ------------------------------------------------------------------ isogenies
ISO = {R + "Isosecp256k1": "get_isogeny_secp256k1", R + "IsoBls12381G1": "get_isogeny_bls12381g1"}


def horner(F, cs, x):
    r = ZERO
    for c in reversed(cs):
        r = F.reduce(r * x + c)
    return r


def iso_image(ex, name, pt):
    C0, C1 = (published(ex, ISOGENIES[name][k]) for k in ("domain", "codomain"))
    F, t = C0.F, ISOGENIES[name]
    if pt == O:
        return O
    x, y = pt
    if F.is_zero(horner(F, kernel(t), x)):
        return O
    xn, xd, yn, yd = (horner(F, t[k], x) for k in ("x_num", "x_den", "y_num", "y_den"))
    return F.reduce(xn * F.inv(xd)), F.reduce(y * yn * F.inv(yd))


def iso_case(name, kind):
    def b(ex):
        t = ISOGENIES[name]
        o = run_ctor(ex, name)
        C0, C1 = published(ex, t["domain"]), published(ex, t["codomain"])
        F = C0.F
        if kind == "identity":
            u = P(ex.cx.ffresh("u"))
            F.assume_nonzero(u)
            pt, p = O, C0.point(C0.zero_coords(u))
        else:
            k = kernel(t)
            x, y = P(ex.cx.ffresh("x")), P(ex.cx.ffresh("y"))
            kx = horner(F, k, x)
            if kind == "kernel":
                F.assume_zero(kx)
            else:
                # x_den = k^2 and y_den = k^3 (isogeny_facts)
                F.assume_nonzero(kx)
                for n, e in (("x_den", 2), ("y_den", 3)):
                    d = horner(F, t[n], x)
                    if not F.is_zero(d - kx ** e):
                        raise Unsupported("table: " + n)
                    F.assume_nonzero(d)
            F.assume_zero(C0.eq_affine(x, y))
            x, y = F.reduce(x), F.reduce(y)
            pt, p = (x, y), C0.point(C0.affine_coords(x, y, z_of(C0)))
        ex.spec = (C1, lambda ex: iso_image(ex, name, pt))
        return ref(o), p
    return b


for _ty, _n in ISO.items():
    contract(f"isogeny.push {_n}", member(_ty, "Isogeny", "push"),
             (lambda n: lambda nm: cases_of([(l, iso_case(n, k)) for l, k in (
                 ("the identity", "identity"), ("kernel points", "kernel"), ("any other point", "other"))])(nm))(_n),
             props=("C28", "C12"), check=image_check)(nothing)


@lemma("isogeny.constants", [(n, (lambda n: lambda ex: (n,))(n)) for n in ISOGENIES], props=("C28",))
def _(ex, name):
    """the object runs between the named curves, and the published functions map one to the other and preserve addition"""
    t = ISOGENIES[name]
    o = run_ctor(ex, name)
    ends(ex, o, t["domain"], t["codomain"])
    for what, ok in isogeny_facts(t) + additive_facts(t):
        if not ok:
            raise Unsupported("table: " + what)


# ------------------------------------------------------------------ composing the two 4-isogenies multiplies by four
def double(C, p):
    if p != O:
        if C.m == "montgomery" and C.F.is_zero(p[1]):
            return O
        valid_pair(C, p, p)
    return law(C.ex, C, p, p)


@lemma("ed448.times4", [("push then pull", lambda ex: (True, None))] + [
       (f"pull then push, {l}", (lambda k: lambda ex: (False, k))(k)) for l, k in KINDS], props=("C27",))
def _(ex, forward, kind):
    o, E, M = model448(ex)
    M.no_minus_one = False
    if forward:
        C, (p, _) = E, ed_point(E)
        E.F.is_zero(p[0])
        E.F.is_zero(p[1])
        q = push448(E, M, p)
        if q != O and not E.F.is_zero(q[0]):
            if E.F.is_zero(q[1]):
                # v = 0 only at (0, 0): u^2 + A u + 1 = 0 would make A^2 - 4 a square
                u, A = q[0], M.par["a"]
                if not E.F.is_zero(u * u + A * u + 1) or E.F.is_square(E.F.reduce(A * A - 4)):
                    raise Unsupported("v = 0")
                raise Infeasible()
            denominators448(M, *q)
        r = pull448(E, M, q)
    else:
        C, (p, _) = M, mt_point(M, kind)
        if kind == "other":
            denominators448(M, *p)
        r = push448(E, M, pull448(E, M, p))
    if not same_points(ex, C, r, double(C, double(C, p))):
        raise ProofFailure("the composition multiplies by four")


@lemma("ed25519.homomorphism", [("any two points", lambda ex: ())], props=("C26",))
def _(ex):
    """push(P + Q) = push(P) + push(Q) for the specified map"""
    o, E, M, c = model25519(ex)
    M.no_minus_one = True
    p, _ = ed_point(E, "1")
    ed25519_special(E, *p)
    q, _ = ed_point(E, "2")
    ed25519_special(E, *q)
    valid_pair(E, p, q)
    s = law(ex, E, p, q)
    s = tuple(E.F.reduce(v) for v in s)
    ed25519_special(E, *s)
    u, v = push25519(E, M, c, p), push25519(E, M, c, q)
    if not same_points(ex, M, push25519(E, M, c, s), law(ex, M, u, v)):
        raise ProofFailure("push preserves addition")


@lemma("ed448.homomorphism", [("any two points", lambda ex: ())], props=("C27",))
def _(ex):
    """push(P + Q) = push(P) + push(Q) for the specified map"""
    o, E, M = model448(ex)
    M.no_minus_one = False
    p, _ = ed_point(E, "1")
    for f in p:
        E.F.is_zero(f)
    q, _ = ed_point(E, "2")
    for f in q:
        E.F.is_zero(f)
    valid_pair(E, p, q)
    s = tuple(E.F.reduce(v) for v in law(ex, E, p, q))
    for f in s:
        E.F.is_zero(f)
    u, v = push448(E, M, p), push448(E, M, q)
    if not same_points(ex, M, push448(E, M, s), law(ex, M, u, v)):
        raise ProofFailure("push preserves addition")
