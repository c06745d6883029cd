"""Contracts of the maps to curves (C22-C25)."""
from ..engine import contract, lemma
from ..lib import *
from ..ext import D, DR
from .fp import cases_of, odd_rep
from .curve import *
from .point import other_curve, differences
from ..values import Box

SSWU, SVDW, SSWUAB0 = ("weierstrass::sswu::SSWU", "weierstrass::svdw::SVDW", "weierstrass::sswuab0::SSWUAB0")
MELL2, EELL2 = "montgomery::elligator2::Ell2", "edwards::elligator2::Ell2"
PRIMES = (("p = 3 mod 4", dict(m4=3)), ("p = 5 mod 8", dict(m8=5)))


def is_map(ty):
    return lambda nm: nm.ty == ty and nm.trait == "MapToCurve" and nm.method == "map"


def is_new(ty):
    return lambda nm: nm.ty == ty and nm.trait is None and nm.method == "new"


def curve_and_z(m):
    """[(label, builder of (curve, z))]"""
    def g(kw):
        def b(ex):
            C = sym_curve(ex, m, prime=sym_prime(ex, lo=5 if m == "weierstrass" else 3, **kw))
            return C, P(ex.cx.ffresh("Z"))
        return b
    return [(l, g(kw)) for l, kw in PRIMES]


def new_cases(m, extra=None):
    return lambda nm: cases_of([(l, (lambda b: lambda ex: (lambda C, z: (C.adt(), C.elt(z)))(*b(ex)))(b))
                                for l, b in curve_and_z(m)])(nm)


def build(ex, ty, args):
    """an object made by the real constructor, on the inputs it accepts"""
    try:
        return ex.run(ex.prog.by_name[ty + "::new"], list(args))
    except Panic:
        raise Infeasible()


def map_cases(ty, m, assume=None, special=()):
    """assume(C, z): conditions on the parameters; special: expressions of (C, z, u) whose vanishing is decided first"""
    def g(b):
        def h(ex):
            C, z = b(ex)
            u = P(ex.cx.ffresh("u"))
            if assume:
                z = assume(C, z) or z
            for f in special:
                C.F.is_zero(C.F.reduce(f(C, z, u)))
            o = build(ex, ty, (C.adt(), C.elt(z)))
            if not isinstance(o, Adt):
                raise Unsupported("object")
            ex.spec = (C, z)
            return ref(o), ref(C.elt(u))
        return h
    return lambda nm: cases_of([(l, g(b)) for l, b in curve_and_z(m)])(nm)


def new_check(cond, what):
    def check(ex, nm, sa, args, out, pan):
        ex.in_spec = True
        C = view_curve(ex, sa[0])
        z = res(ex, sa[1])
        ok = cond(C, z)
        if pan is None and not ok:
            raise ProofFailure(f"{what} refuses the parameters")
        if pan is not None and ok:
            raise ProofFailure(f"{what} accepts the parameters", pan.msg)
        return "panic" if pan else "value"
    return check


def ghost_map(C, z, spec):
    ex = C.ex
    if getattr(ex, "opaque_maps", None) is not None:
        return opaque_map(C, ex.opaque_maps)
    def m(ex, args):
        u = res(ex, args[1])
        x, y = spec(C, z, u)
        zz = P(ex.cx.ffresh("z"))
        C.F.assume_nonzero(zz)
        return C.point(C.affine_coords(x, y, zz))
    return Ghost("map", C=C, z=z, spec=spec, methods={"map": m})


def map_check(xspec, props, sign):
    """the result is on the curve, has the specified abscissa, and its ordinate the specified sign"""
    def check(ex, nm, sa, args, out, pan):
        if pan is not None:
            raise ProofFailure("is defined for every field element", pan.msg)
        ex.in_spec = True
        C, z = ex.spec
        u = res(ex, sa[1])
        out = D(out)
        same_curve(ex, out, C)
        _, co, _ = view_point(ex, out)
        if not C.on_curve(co):
            raise pf(props + ("C12",), "the result satisfies the curve equation")
        pt = classify(ex, C, co)
        if pt is None or pt == O:
            raise ProofFailure("the result is an affine point")
        x, tag = xspec(C, z, u)
        if not C.F.is_zero(pt[0] - x):
            raise ProofFailure("the x coordinate is the prescribed candidate", f"{pt[0]} against {x}")
        sign(ex, C, u, pt[1], tag)
    return check


def same_sign(ex, C, u, y, tag):
    if C.F.is_zero(y):
        return
    if odd_rep(ex, C.pk, y) != odd_rep(ex, C.pk, u):
        raise ProofFailure("y has the sign of u")


def with_sign(ex, C, v, odd):
    """the root of the square v with the given parity"""
    y = C.F.sqrt(v)
    if C.F.is_zero(y):
        return ZERO
    return y if odd_rep(ex, C.pk, y) == odd else -y


def gw(C, x):
    return C.F.reduce(x * x * x + C.par["a"] * x + C.par["b"])


# ------------------------------------------------------------------ simplified SWU
def nonsquare_z(C, z):
    C.F.assume_nonzero(z)
    C.F.assume_square(z, False)


def sswu_ok(C, z):
    F, a, b = C.F, C.par["a"], C.par["b"]
    if F.is_zero(a) or F.is_zero(b) or F.is_square(z) or F.is_zero(z + 1):
        return False
    return F.is_square(gw(C, F.reduce(b * F.inv(F.reduce(z * a)))))


def sswu_x(C, z, u):
    F, a, b = C.F, C.par["a"], C.par["b"]
    zu = F.reduce(z * u * u)
    d = F.reduce(zu * zu + zu)
    if F.is_zero(d):
        x1 = F.reduce(b * F.inv(F.reduce(z * a)))
    else:
        x1 = F.reduce(-b * F.inv(a) * (1 + F.inv(d)))
    return (x1, 1) if F.is_square(gw(C, x1)) else (F.reduce(zu * x1), 2)


def sswu_spec(C, z, u):
    x = sswu_x(C, z, u)[0]
    return x, with_sign(C.ex, C, gw(C, x), odd_rep(C.ex, C.pk, u))


@contract("sswu.new", is_new(SSWU), new_cases("weierstrass"), props=("C22",), check=new_check(sswu_ok, "SSWU"))
def _(ex, nm, a):
    C, z = view_curve(ex, a[0]), res(ex, a[1])
    if not sswu_ok(C, z):
        raise Panic("wrong input parameters")
    return ghost_map(C, z, sswu_spec)


@contract("sswu.map", is_map(SSWU), map_cases(SSWU, "weierstrass", nonsquare_z, (
          lambda C, z, u: u, lambda C, z, u: z * u * u + 1)), props=("C22", "C12"),
          check=map_check(sswu_x, ("C22",), same_sign))
def _(ex, nm, a):
    raise Unsupported("map on a concrete object")


# ------------------------------------------------------------------ Shallue-van de Woestijne
def svdw_ok(C, z):
    F, a = C.F, C.par["a"]
    gz = gw(C, z)
    if F.is_zero(gz):
        return False
    t = F.reduce(-(3 * z * z + 4 * a) * F.inv(F.reduce(4 * gz)))
    if F.is_zero(t) or not F.is_square(t):
        return False
    return F.is_square(gz) or F.is_square(gw(C, F.reduce(-z * F.inv(P(2)))))


def svdw_x(C, z, u):
    """the first candidate with a square curve value (hash-to-curve draft, section 6.6.1)"""
    F, a = C.F, C.par["a"]
    gz = gw(C, z)
    t1 = F.reduce(u * u * gz)
    t2 = F.reduce(1 + t1)
    t1 = F.reduce(1 - t1)
    t3 = F.inv0(F.reduce(t1 * t2))
    h = F.reduce(3 * z * z + 4 * a)
    t4 = with_sign(C.ex, C, F.reduce(-gz * h), False)
    t5 = F.reduce(u * t1 * t3 * t4)
    t6 = F.reduce(-4 * gz * F.inv(h))
    m = F.reduce(-z * F.inv(P(2)))
    x1, x2 = F.reduce(m - t5), F.reduce(m + t5)
    x3 = F.reduce(z + t6 * (t2 * t2 * t3) ** 2)
    if F.is_square(gw(C, x1)):
        return x1, 1
    if F.is_square(gw(C, x2)):
        return x2, 2
    return x3, 3


def svdw_spec(C, z, u):
    x = svdw_x(C, z, u)[0]
    return x, with_sign(C.ex, C, gw(C, x), odd_rep(C.ex, C.pk, u))


@contract("svdw.new", is_new(SVDW), new_cases("weierstrass"), props=("C23",), check=new_check(svdw_ok, "SVDW"))
def _(ex, nm, a):
    C, z = view_curve(ex, a[0]), res(ex, a[1])
    if not svdw_ok(C, z):
        raise Panic("wrong input parameters")
    return ghost_map(C, z, svdw_spec)


def svdw_parameters(C, z):
    """every accepted (A, B, Z): with G = g(Z) and H = 3 Z^2 + 4 A, -H / (4 G) is a nonzero square, so -G H = c^2"""
    cx, F = C.ex.cx, C.F
    G, c = P(cx.ffresh("G")), P(cx.ffresh("c"))
    F.assume_nonzero(G)
    F.assume_nonzero(c)
    if F.is_odd(c):             # c or -c is even
        raise Infeasible()
    C.par["a"] = F.reduce((-c * c * F.inv(G) - 3 * z * z) * F.inv(P(4)))
    C.par["b"] = F.reduce(G - z * z * z - C.par["a"] * z)


@contract("svdw.map", is_map(SVDW), map_cases(SVDW, "weierstrass", svdw_parameters, (
          lambda C, z, u: u, lambda C, z, u: gw(C, z) * u * u + 1, lambda C, z, u: gw(C, z) * u * u - 1)), props=("C23", "C12"),
          check=map_check(svdw_x, ("C23",), same_sign))
def _(ex, nm, a):
    raise Unsupported("map on a concrete object")


# ------------------------------------------------------------------ Elligator 2
def ell2_ok(C, z):
    return not C.F.is_zero(C.par["a"]) and not C.F.is_zero(C.par["b"])


def ell2_parts(C, z, u):
    """(x, g(x), odd) on the curve y^2 = x^3 + (a/b) x^2 + x / b^2"""
    F, a, b = C.F, C.par["a"], C.par["b"]
    A, B = F.reduce(a * F.inv(b)), F.reduce(F.inv(b) * F.inv(b))
    g = lambda x: F.reduce(x * x * x + A * x * x + B * x)
    d = F.reduce(1 + z * u * u)
    x1 = -A if F.is_zero(d) else F.reduce(-A * F.inv(d))
    if F.is_square(g(x1)):
        return x1, g(x1), True
    x2 = F.reduce(-x1 - A)
    return x2, g(x2), False


def ell2_x(C, z, u):
    x, g, odd = ell2_parts(C, z, u)
    return C.F.reduce(C.par["b"] * x), odd


def ell2_sign(ex, C, u, y, odd):
    F = C.F
    v = F.reduce(y * F.inv(C.par["b"]))
    if F.is_zero(v):
        return
    if odd_rep(ex, C.pk, v) != odd:
        raise ProofFailure(f"y / b is {'odd' if odd else 'even'}")


def ell2_spec(C, z, u):
    x, g, odd = ell2_parts(C, z, u)
    b = C.par["b"]
    return C.F.reduce(b * x), C.F.reduce(b * with_sign(C.ex, C, g, odd))


@contract("ell2.new", is_new(MELL2), new_cases("montgomery"), props=("C24",), check=new_check(ell2_ok, "Ell2"))
def _(ex, nm, a):
    C, z = view_curve(ex, a[0]), res(ex, a[1])
    if not ell2_ok(C, z):
        raise Panic("wrong input parameters")
    return ghost_map(C, z, ell2_spec)


@contract("ell2.map", is_map(MELL2), map_cases(MELL2, "montgomery", nonsquare_z), props=("C24", "C12"),
          check=map_check(ell2_x, ("C24",), ell2_sign))
def _(ex, nm, a):
    raise Unsupported("map on a concrete object")


# ------------------------------------------------------------------ composed maps
class Change:
    """an arbitrary map between two curves: `domain`, `codomain`, and an opaque `push` / `pull`"""

    def __init__(self, C0, C1, forward):
        self.C0, self.C1, self.log = C0, C1, []

        def move(to):
            def f(ex, args):
                to_ = to
                z = z_of(to_, ".image")
                x, y = xy_of(to_, ".image")
                out = to_.point(to_.affine_coords(x, y, z))
                self.log.append((to_, args[1], (x, y)))
                return out
            return f
        ms = {"domain": lambda ex, args: C0.adt(), "codomain": lambda ex, args: C1.adt(), "push": move(C1)}
        if not forward:
            ms["pull"] = move(C0)
        self.ghost = Ghost("curve change", methods=ms)


def ab0_cases(kind):
    def g(zeros, twin):
        def b(ex):
            pk = sym_prime(ex, lo=5)
            C0 = sym_curve(ex, "weierstrass", prime=pk, name="0")
            C1 = sym_curve(ex, "weierstrass", prime=pk, name="1")
            for n in "ab":
                if n in zeros:
                    C1.par[n] = ZERO
                else:
                    C1.F.assume_nonzero(C1.par[n])
            E = C1
            if twin != "codomain":
                E = other_curve(ex, C1, twin)
            ch = Change(C0, C1, True)
            z = P(ex.cx.ffresh("Z"))
            ex.spec = (ch, E, z, len(zeros) == 1 and twin == "codomain")
            return E.adt(), C0.elt(z), Box(ch.ghost)
        return b
    return [(f"{t if t == 'codomain' else 'another curve (' + t + ')'}, {w}", g(zs, t))
            for t in ("codomain",) + differences("weierstrass")[:3] for w, zs in (("A = 0", "a"), ("B = 0", "b"), ("A = B = 0", "ab"), ("AB != 0", ""))]


def ab0_new_check(ex, nm, sa, args, out, pan):
    ch, E, z, fit = ex.spec
    if not fit:
        if pan is None:
            raise ProofFailure("SSWUAB0 refuses a wrong curve or isogeny")
        return "value"
    ok = sswu_ok(ch.C0, z)
    if pan is None and not ok:
        raise ProofFailure("SSWUAB0 refuses the parameters")
    if pan is not None and ok:
        raise ProofFailure("SSWUAB0 accepts the parameters", pan.msg)
    return "panic" if pan else "value"


@contract("sswuab0.new", is_new(SSWUAB0), lambda nm: cases_of(
          [(("!" if not l.startswith("codomain, ") or l.endswith("A = B = 0") or "!=" in l else "") + l, f)
           for l, f in ab0_cases("new")])(nm), props=("C25",), check=ab0_new_check)
def _(ex, nm, a):
    raise Unsupported("SSWUAB0::new")


def composed_check(ex, nm, sa, args, out, pan):
    ch, inner, target = ex.spec
    if pan is not None:
        raise ProofFailure("is defined for every field element", pan.msg)
    ex.in_spec = True
    out = D(out)
    same_curve(ex, out, target)
    _, co, _ = view_point(ex, out)
    pt = classify(ex, target, co)
    calls = [l for l in ch.log if l[0] is target]
    if not calls:
        raise ProofFailure("the curve change is applied")
    u = res(ex, sa[1])
    for to, src, img in calls:
        if not same_points(ex, target, pt, img):
            continue
        source = ch.C1 if target is ch.C0 else ch.C0
        src = D(src)
        same_curve(ex, src, source)
        _, c0, _ = view_point(ex, src)
        if not any(w is not None and source.F.is_zero(v - u) and same_points(ex, source, classify(ex, source, c0), w)
                   for v, w in inner):
            raise ProofFailure("the curve change is applied to the inner map's point")
        return
    raise ProofFailure("the result is the image under the curve change")


def same_points(ex, C, p, q):
    if p is None or q is None:
        return False
    if p == O or q == O:
        return p == O and q == O
    return all(C.F.is_zero(a - b) for a, b in zip(p, q))


def opaque_map(C, inner):
    """an arbitrary map to C, remembering what it was asked"""
    def m(ex, args):
        u = res(ex, args[1])
        x, y = xy_of(C, ".inner")
        inner.append((u, (x, y)))
        return C.point(C.affine_coords(x, y, z_of(C, ".inner")))
    return Ghost("map", C=C, methods={"map": m})


def with_inner(ex, inner, f):
    """build an object whose inner map is made by a constructor under contract; its points are remembered"""
    ex.opaque_maps = inner
    try:
        return f()
    finally:
        ex.opaque_maps = None


def ab0_map_case(zeros):
    def b(ex):
        pk = sym_prime(ex, lo=5)
        C0 = sym_curve(ex, "weierstrass", prime=pk, name="0")
        C1 = sym_curve(ex, "weierstrass", prime=pk, name="1")
        C1.par[zeros] = ZERO
        C1.F.assume_nonzero(C1.par["b" if zeros == "a" else "a"])
        ch, inner = Change(C0, C1, True), []
        z = P(ex.cx.ffresh("Z"))
        o = with_inner(ex, inner, lambda: build(ex, SSWUAB0, (C1.adt(), C0.elt(z), Box(ch.ghost))))
        ex.spec = (ch, inner, C1)
        return ref(o), ref(C0.elt(P(ex.cx.ffresh("u"))))
    return b


@contract("sswuab0.map", is_map(SSWUAB0), lambda nm: cases_of([("A = 0", ab0_map_case("a")), ("B = 0", ab0_map_case("b"))])(nm),
          props=("C25", "C12"), check=composed_check)
def _(ex, nm, a):
    raise Unsupported("map on a concrete object")


def ed_change(ex, twin="domain"):
    pk = sym_prime(ex, lo=3)
    C0 = sym_curve(ex, "edwards", prime=pk, name="0")
    C1 = sym_curve(ex, "montgomery", prime=pk, name="1")
    E = C0 if twin == "domain" else other_curve(ex, C0, twin)
    return Change(C0, C1, False), E, P(ex.cx.ffresh("Z"))


def eell2_new_case(twin):
    def b(ex):
        ch, E, z = ed_change(ex, twin)
        ex.spec = (ch, E, z, twin == "domain")
        return E.adt(), ch.C0.elt(z), ex.some(Box(ch.ghost))
    return b


def eell2_new_check(ex, nm, sa, args, out, pan):
    ch, E, z, twin = ex.spec
    if not twin:
        if pan is None:
            raise ProofFailure("Ell2 refuses a rational map of another curve")
        return "value"
    ok = ell2_ok(ch.C1, z)
    if pan is None and not ok:
        raise ProofFailure("Ell2 refuses the parameters")
    if pan is not None and ok:
        raise ProofFailure("Ell2 accepts the parameters", pan.msg)
    return "panic" if pan else "value"


@contract("eell2.new", is_new(EELL2), lambda nm: cases_of([("rational map of the curve", eell2_new_case("domain"))] +
          [(f"!rational map of another curve ({w})", eell2_new_case(w)) for w in differences("edwards")[:3]])(nm),
          props=("C25",), check=eell2_new_check)
def _(ex, nm, a):
    raise Unsupported("Ell2::new")


def eell2_map_case(ex):
    ch, E, z = ed_change(ex)
    inner = []
    o = with_inner(ex, inner, lambda: build(ex, EELL2, (E.adt(), ch.C0.elt(z), ex.some(Box(ch.ghost)))))
    ex.spec = (ch, inner, ch.C0)
    return ref(o), ref(ch.C0.elt(P(ex.cx.ffresh("u"))))


@contract("eell2.map", is_map(EELL2), lambda nm: cases_of([("any", eell2_map_case)])(nm), props=("C25", "C12"), check=composed_check)
def _(ex, nm, a):
    raise Unsupported("map on a concrete object")
