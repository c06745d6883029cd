"""Contracts of point encoding and decoding (C19, C20, C21) and the round-trip lemmas over them."""
from ..engine import contract, lemma
from ..lib import *
from ..ext import D, DR
from ..bytes_ import Rope
from .fp import cases_of, size_of, odd_rep
from .curve import *
from .point import point_cases, pm

ERR = "io::Error"
SECTION = {"weierstrass": ("C19",), "montgomery": ("C19",), "edwards": ("C21",)}


def edw_size(ex, pk):
    """ceil((bitlen(p)+1)/8)"""
    cx = ex.cx
    return cx.div(cx.bits(pk) + 8, P(8))


def tag_of(ex, C, y):
    return 3 if odd_rep(ex, C.pk, y) else 2


def encode_spec(ex, C, pt, compress):
    """the encoding of a point of the curve"""
    cx = ex.cx
    n = size_of(ex, C.pk)
    if C.m == "edwards":
        x, y = pt
        v = cx.lift(C.pk, y)
        m = edw_size(ex, C.pk)
        if odd_rep(ex, C.pk, x):
            v = v + cx.pow2(m * 8 - 1)
        return Rope.le(v, m)
    if pt == O:
        return Rope.const([0])
    x, y = pt
    X, Y = Rope.be(cx.lift(C.pk, x), n), Rope.be(cx.lift(C.pk, y), n)
    r = Rope.const([tag_of(ex, C, y) if compress else 4])
    r.append(X)
    if not compress:
        r.append(Y)
    return r


def enc_cases(nm):
    m = pm(nm)
    out = []
    for comp in (False, True):
        out += [(f"{l}, compress={comp}".lower(), b) for l, b in
                point_cases(m, lambda ex, C, pt, v, comp=comp: (ref(v), comp))]
    return cases_of(out)(nm)


@contract("point.encode", lambda nm: nm.ty in PT and nm.trait == "Encode" and nm.method == "encode", enc_cases,
          props=("C19", "C20", "C21"))
def _(ex, nm, a):
    C, co, g = view_point(ex, a[0])
    if co is None:
        raise Unsupported("encoding of a group element")
    pt = classify(ex, C, co)
    if pt is None:
        raise Unsupported("encoding of coordinates that are no point")
    comp = D(a[1])
    if C.m != "edwards" and pt != O and not isinstance(comp, bool):
        raise Unsupported("symbolic flag")
    return encode_spec(ex, C, pt, comp)


# ------------------------------------------------------------------ decoding
PRIMES = (("p = 3 mod 4", dict(m4=3)), ("p = 5 mod 8", dict(m8=5)))


def y_denominator(C, y):
    """d y^2 != a on a complete Edwards curve (lemma edwards.denominators)"""
    C.F.assume_nonzero(C.F.reduce(C.par["d"] * y * y - C.par["a"]))


def byte_string_classes(m):
    """every byte string, split by what its length says: label -> builder(ex, C) -> Rope"""
    def num(ex, name, n):
        v = P(ex.cx.fresh(name))
        ex.cx.int_assume("le", -v)
        ex.cx.int_assume("le", v + 1 - ex.cx.pow2(n * 8))
        return v

    def tag(ex):
        t = P(ex.cx.fresh("tag"))
        ex.cx.int_assume("le", -t)
        ex.cx.int_assume("le", t - 255)
        return Rope([("be", t, ONE)])

    def other(lens):
        def g(ex, C):
            n = P(ex.cx.fresh("len"))
            ex.cx.int_assume("le", -n)
            ex.cx.int_assume("le", n - 2 ** 48)
            for l in lens(ex, C):
                ex.cx.int_assume("eq", n - l, False)
            return Rope([("be", num(ex, "W", n), n)])
        return g
    if m == "edwards":
        def right(ex, C):
            n = edw_size(ex, C.pk)
            s = P(ex.cx.fresh("topbit"))
            ex.cx.int_assume("le", -s)
            ex.cx.int_assume("le", s - 1)
            v = P(ex.cx.fresh("Y"))
            ex.cx.int_assume("le", -v)
            ex.cx.int_assume("le", v + 1 - ex.cx.pow2(n * 8 - 1))
            y_denominator(C, ex.cx.image(v, C.pk))
            return Rope.le(v + s * ex.cx.pow2(n * 8 - 1), n)
        return {"the right length": right, "another length": other(lambda ex, C: [edw_size(ex, C.pk)])}

    def one(ex, C):
        return tag(ex)

    def comp(ex, C):
        n = size_of(ex, C.pk)
        r = tag(ex)
        r.append(Rope.be(num(ex, "X", n), n))
        return r

    def full(ex, C):
        n = size_of(ex, C.pk)
        r = comp(ex, C)
        r.append(Rope.be(num(ex, "Y", n), n))
        return r
    return {"one byte": one, "1 + size bytes": comp, "1 + 2 size bytes": full,
            "another length": other(lambda ex, C: [ONE, size_of(ex, C.pk) + 1, size_of(ex, C.pk) * 2 + 1])}


def dec_cases(nm):
    m = pm(nm)
    out = []
    for pl, kw in PRIMES:
        for l, g in byte_string_classes(m).items():
            def b(ex, g=g, kw=kw):
                C = sym_curve(ex, m, prime=sym_prime(ex, lo=5 if m == "weierstrass" else 3, **kw))
                return C.adt(), ref(g(ex, C))
            out.append((f"{l}, {pl}", b))
    return cases_of(out)(nm)


def rhs(C, x):
    """y^2 as a function of x"""
    F, q = C.F, C.par
    if C.m == "weierstrass":
        return F.reduce(x * x * x + q["a"] * x + q["b"])
    return F.reduce((x * x * x + q["a"] * x * x + x) * F.inv(q["b"]))


def pick_sign(ex, C, gx, odd):
    """the root of gx with the given parity; None when there is none"""
    F = C.F
    if not F.is_square(gx):
        return None
    y = F.sqrt(gx)
    if F.is_zero(y):
        return None if odd else ZERO
    return y if odd_rep(ex, C.pk, y) == odd else -y


def decode_spec(ex, C, r):
    """the point encoded by the byte string, or None"""
    cx = ex.cx
    n = size_of(ex, C.pk)
    L = r.length()
    if C.m == "edwards":
        m = edw_size(ex, C.pk)
        if not cx.eq(L, m):
            return None
        v = r.value_le(cx)
        top = cx.pow2(m * 8 - 1)
        odd, Y = cx.eq(cx.div(v, top), 1), cx.mod(v, top)
        if not cx.lt(Y, C.pk):
            return None
        F, q = C.F, C.par
        y = cx.residue(Y, C.pk)
        den = F.reduce(q["d"] * y * y - q["a"])
        y_denominator(C, y)
        x = pick_sign(ex, C, F.reduce((y * y - 1) * F.inv(den)), odd)
        return None if x is None else (x, y)
    if cx.eq(L, 1):
        return O if cx.eq(r.index(cx, 0).p, 0) else None
    full = cx.eq(L, n * 2 + 1)
    if not full and not cx.eq(L, n + 1):
        return None
    t = r.index(cx, 0).p
    X = r.slice(cx, 1, n + 1).value_be(cx)
    if not cx.lt(X, C.pk):
        return None
    x = cx.residue(X, C.pk)
    if full:
        Y = r.slice(cx, n + 1, n * 2 + 1).value_be(cx)
        if not cx.lt(Y, C.pk) or not cx.eq(t, 4):
            return None
        y = cx.residue(Y, C.pk)
        return (x, y) if C.F.is_zero(C.eq_affine(x, y)) else None
    if cx.eq(t, 2):
        odd = False
    elif cx.eq(t, 3):
        odd = True
    else:
        return None
    y = pick_sign(ex, C, rhs(C, x), odd)
    return None if y is None else (x, y)


def dec_check(ex, nm, sa, args, out, pan):
    if pan is not None:
        raise pf(("C20",), "never panics", pan.msg)
    ex.in_spec = True
    C = view_curve(ex, sa[0])
    own = SECTION[C.m]
    pt = decode_spec(ex, C, D(sa[1]).copy())
    out = D(out)
    if pt is None:
        if out.var != ex.err(None).var:
            raise pf(("C20",), "refuses a byte string that encodes no point", repr(out)[:300])
        return
    if out.var != ex.ok(None).var:
        raise pf(own, "accepts the encoding of a point")
    represents(ex, out.f[0], C, pt, "the decoded point", onprops=("C12", "C20"), props=own)


@contract("curve.decode", lambda nm: nm.ty in CV and nm.trait == "Decode" and nm.method == "decode", dec_cases,
          props=("C12", "C19", "C20", "C21"), check=dec_check)
def _(ex, nm, a):
    C = view_curve(ex, a[0])
    pt = decode_spec(ex, C, D(a[1]).copy())
    if pt is None:
        return ex.err(Opaque(ERR))
    z = P(ex.cx.ffresh("z"))
    C.F.assume_nonzero(z)
    return ex.ok(C.point(C.zero_coords(z) if pt == O else C.affine_coords(*pt, z)))


# ------------------------------------------------------------------ round trips, on the specifications
def point_classes(m):
    out = []
    for pl, kw in PRIMES:
        for l in ([] if m == "edwards" else ["identity"]) + ["affine"]:
            for comp in ((True,) if m == "edwards" else (False, True)):
                def b(ex, l=l, comp=comp, kw=kw):
                    C = sym_curve(ex, m, prime=sym_prime(ex, lo=5 if m == "weierstrass" else 3, **kw))
                    return C, (O if l == "identity" else xy_of(C)), comp
                out.append((f"{m}, {l}, {pl}, compress={comp}".lower(), b))
    return out


def known_square(C, g, y):
    """g = y^2, checked and then recorded"""
    F = C.F
    if not F.known_zero(g - y * y):
        raise ProofFailure("the curve equation solved for the square")
    if not F.is_zero(y):
        F.assume_square(g, True)
    F.roots.append((F.reduce(g), y))


def roundtrip(ex, C, pt, comp):
    """decode(encode(P)) = P"""
    r = encode_spec(ex, C, pt, comp)
    if pt != O and C.m != "edwards":
        known_square(C, rhs(C, pt[0]), pt[1])
    q = decode_spec(ex, C, r.copy())
    if q is None:
        raise ProofFailure("the encoding of a point is accepted")
    if pt == O or q == O:
        if pt != q:
            raise ProofFailure("the decoded point is the encoded one")
        return
    F = C.F
    i, j = (1, 0) if C.m == "edwards" else (0, 1)      # the coordinate written out, the coordinate given by its sign
    if not F.is_zero(q[i] - pt[i]):
        raise ProofFailure("the written coordinate round-trips")
    if not F.is_zero(q[j] - pt[j]):
        if not F.is_zero(q[j] + pt[j]):
            raise ProofFailure("the recovered coordinate is one of the two roots")
        # q = -pt != 0 would have the other parity
        if odd_rep(ex, C.pk, q[j]) == odd_rep(ex, C.pk, pt[j]):
            raise ProofFailure("the sign selects the root")
        raise ProofFailure("the recovered coordinate round-trips")


lemma("encode.roundtrip", point_classes("weierstrass") + point_classes("montgomery"), props=("C19",))(roundtrip)
lemma("encode.roundtrip.edwards", point_classes("edwards"), props=("C21",))(roundtrip)


def strict_cases():
    out = []
    for m in MODELS:
        for pl, kw in PRIMES:
            for l, g in byte_string_classes(m).items():
                def b(ex, m=m, g=g, kw=kw):
                    C = sym_curve(ex, m, prime=sym_prime(ex, lo=5 if m == "weierstrass" else 3, **kw))
                    return C, g(ex, C)
                out.append((f"{m}, {l}, {pl}", b))
    return out


@lemma("decode.strict", strict_cases(), props=("C20",))
def _(ex, C, r):
    """a byte string is accepted only if it is the encoding of the decoded point in the same form"""
    pt = decode_spec(ex, C, r.copy())
    if pt is None:
        return
    if C.m == "edwards":
        e = encode_spec(ex, C, pt, True)
    elif pt == O:
        e = encode_spec(ex, C, pt, True)
    else:
        full = ex.cx.eq(r.length(), size_of(ex, C.pk) * 2 + 1)
        e = encode_spec(ex, C, pt, not full)
    if not e.equal(ex.cx, r.copy()):
        raise ProofFailure("the accepted byte string is the canonical encoding", f"{r} accepted, canonical {e}")
