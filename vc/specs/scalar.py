"""Contracts of src/*/scalar.rs (C09-C11), the same for the three curve models."""
from ..engine import contract, lemma
from ..lib import *
from ..ext import D, DR, digits
from ..exec import INT
from ..bytes_ import Rope
from .fp import cases_of, size_of

SC = tuple(f"{m}::scalar::Scalar" for m in MODELS)
ITN = tuple(f"{m}::scalar::Iterino" for m in MODELS)


def model(nm):
    return nm.ty.split("::")[0]


def mk_sc(ex, ty, r, k):
    """k: residue"""
    return ex.adt(ty, k=Big(ex.cx.lift(P(r), k)), r=Big(r))


def view_sc(ex, v, what="scalar"):
    v = D(v)
    if not isinstance(v, Adt) or v.ty not in SC:
        raise Unsupported(f"scalar {v!r}")
    r = ex.field(v, "r").p
    k = ex.cx.residue(ex.field(v, "k").p, r)
    if k is None:
        raise ProofFailure(f"canonical representative of {what}", repr(v))
    return r, k


def order(ex, name="r", prime=False):
    r = sym_prime(ex, name, lo=3 if prime else 2, odd=prime)
    return r


def sc_of(ty, name="k", prime=False):
    def g(ex):
        return mk_sc(ex, ty, order(ex, prime=prime), P(ex.cx.ffresh(name))),
    return [("any scalar", g)]


def two_sc(ty, prime=False):
    def s(ex):
        r = order(ex, prime=prime)
        return mk_sc(ex, ty, r, P(ex.cx.ffresh("k"))), mk_sc(ex, ty, r, P(ex.cx.ffresh("l")))

    def d(ex):
        r, q = order(ex, "r", prime), order(ex, "q", prime)
        ex.cx.int_assume("eq", r - q, False)
        return mk_sc(ex, ty, r, P(ex.cx.ffresh("k"))), mk_sc(ex, ty, q, P(ex.cx.ffresh("l")))
    return [("same group", s), ("!different groups", d)]


def scop(trait, method):
    return lambda nm: nm.ty in SC and nm.trait == trait and nm.method == method and nm.targ == nm.ty


def per_type(f, *args):
    """cases for the scalar type the function belongs to"""
    def g(nm):
        ty = nm.ty if nm.ty in SC else nm.targ
        return cases_of(f(ty, *args))(nm)
    return g


def bin_sc(ex, nm, a, f):
    r, k = view_sc(ex, a[0])
    q, l = view_sc(ex, a[1])
    if not same(ex, r, q):
        raise Panic("elements of different groups")
    return mk_sc(ex, nm.ty, r, f(ex.cx.field(r), k, l))


@contract("scalar.new", lambda nm: nm.ty in SC and nm.trait is None and nm.method == "new",
          cases_of([("any integer", lambda ex: [Big(P(ex.cx.fresh("n"))), Big(order(ex), True)])]), props=("C10",))
def _(ex, nm, a):
    r = D(a[1]).p
    return mk_sc(ex, nm.ty, r, ex.cx.image(D(a[0]).p, r))


@contract("scalar.add", scop("Add", "add"), per_type(two_sc), props=("C09", "C10"))
def _(ex, nm, a):
    return bin_sc(ex, nm, a, lambda F, x, y: x + y)


@contract("scalar.sub", scop("Sub", "sub"), per_type(two_sc), props=("C09", "C10"))
def _(ex, nm, a):
    return bin_sc(ex, nm, a, lambda F, x, y: x - y)


@contract("scalar.mul", scop("Mul", "mul"), per_type(two_sc), props=("C09", "C10"))
def _(ex, nm, a):
    return bin_sc(ex, nm, a, lambda F, x, y: F.reduce(x * y))


@contract("scalar.div", scop("Div", "div"), per_type(two_sc, True), props=("C09", "C10"))
def _(ex, nm, a):
    return bin_sc(ex, nm, a, lambda F, x, y: F.reduce(x * F.inv0(y)))


@contract("scalar.neg", lambda nm: nm.ty in SC and nm.trait == "Neg" and nm.method == "neg", per_type(sc_of),
          props=("C10",))
def _(ex, nm, a):
    r, k = view_sc(ex, a[0])
    return mk_sc(ex, nm.ty, r, -k)


@contract("scalar.inverse", lambda nm: nm.ty == "u32" and nm.trait == "Div" and nm.targ in SC and nm.method == "div",
          lambda nm: cases_of([("any numerator", lambda ex: (_u32(ex), sc_of(nm.targ, "k", True)[0][1](ex)[0]))])(nm),
          props=("C09", "C10"))
def _(ex, nm, a):
    r, k = view_sc(ex, a[1])
    if not ex.cx.eq(D(a[0]).p, 1):
        raise Panic("numerator must be 1u32")
    return mk_sc(ex, nm.targ, r, ex.cx.field(r).inv0(k))


def _u32(ex):
    n = P(ex.cx.fresh("n"))
    ex.cx.int_assume("le", -n)
    ex.cx.int_assume("le", n - (2 ** 32 - 1))
    return Int(n, "u32")


@contract("scalar.clone", lambda nm: nm.ty in SC and nm.method == "clone", per_type(sc_of), props=("C09", "C10"))
def _(ex, nm, a):
    r, k = view_sc(ex, a[0])
    return mk_sc(ex, nm.ty, r, k)


@contract("scalar.eq", lambda nm: nm.ty in SC and nm.trait == "PartialEq" and nm.method == "eq",
          lambda nm: cases_of([("same group", two_sc(nm.ty)[0][1]), ("different groups", two_sc(nm.ty)[1][1])])(nm),
          props=("C09", "C10"))
def _(ex, nm, a):
    r, k = view_sc(ex, a[0])
    q, l = view_sc(ex, a[1])
    if not same(ex, r, q):
        return False
    return ex.cx.big_eq(ex.cx.lift(r, k), ex.cx.lift(r, l))


@contract("scalar.to_bytes", lambda nm: nm.ty in SC and nm.trait == "Serialize" and
          nm.method in ("to_bytes_be", "to_bytes_le"), per_type(sc_of), props=("C10",))
def _(ex, nm, a):
    r, k = view_sc(ex, a[0])
    n = size_of(ex, r)
    v = ex.cx.lift(r, k)
    return Rope.be(v, n) if nm.method.endswith("be") else Rope.le(v, n)


# ------------------------------------------------------------------ bit iteration
def mk_iter(ex, ty, k, i, lr):
    """state of the iterator over the bits of k >= 0 whose next bit is i (modulo 2^64)"""
    cx = ex.cx
    if k.is_zero():
        v = Arr([])
        l = ZERO
    else:
        v = digits(ex, k)
        l = cx.bits(k)
    return ex.adt(ty, l=Int(l, "usize"), i=Int(i, "usize"), v=v, is_lr=lr)


def in_loop(ex, it):
    """the iterator at the head of a loop whose invariant is stated"""
    v = ex.field(it, "v")
    if isinstance(v, Ghost):
        v.d["in loop"] = True
    return it


@contract("scalar.iter", lambda nm: nm.ty in SC and nm.method in ("iter_lr", "iter_rl"), per_type(sc_of),
          props=("C11",), check=lambda *a: iter_check(*a))
def _(ex, nm, a):
    r, k = view_sc(ex, a[0])
    cx = ex.cx
    ty = nm.ty.replace("Scalar", "Iterino")
    v = cx.lift(r, k)
    if cx.big_eq(v, ZERO):
        v = ZERO
    lr = nm.method == "iter_lr"
    n = cx.bits(v)
    i = ZERO if not lr else P(2 ** 64 - 1) if v.is_zero() else n - 1
    return mk_iter(ex, ty, v, i, lr)


def same_iter(ex, out, exp):
    out = D(out)
    if not isinstance(out, Adt) or out.ty != exp.ty:
        raise Unsupported("another representation of the bit iterator")
    for n in ("l", "i", "is_lr"):
        a, b = ex.field(out, n), ex.field(exp, n)
        compare(ex, a, b, f"iterator.{n}")
    a, b = ex.field(out, "v"), ex.field(exp, "v")
    if isinstance(b, Ghost):
        if not (isinstance(a, Ghost) and a.kind == "digits" and ex.cx.big_eq(a.d["value"], b.d["value"])):
            raise ProofFailure("the iterator holds the digits of the scalar", repr(a))
    elif not isinstance(a, Arr) or len(a.f) != len(b.f):
        raise ProofFailure("the iterator holds the digits of the scalar", repr(a))


def iter_check(ex, nm, sa, args, out, pan):
    if pan is not None:
        raise ProofFailure("does not panic", pan.msg)
    ex.in_spec = True
    c = next(c for c in CONTRACTS_() if c.ident == "scalar.iter")
    same_iter(ex, out, c.apply(ex, nm, sa))


def CONTRACTS_():
    from ..engine import CONTRACTS
    return CONTRACTS


def bit_of(ex, k, i):
    """bit i of k, 0 <= i < bitlen(k)"""
    cx = ex.cx
    for k2, i2, b in cx.memo.setdefault("bits of", []):
        if k == k2 and cx.int_valid("eq", i - i2):
            return b
    b = cx.choose(f"bit {i} of {k}")
    cx.memo["bits of"].append((k, i, b))
    return b


def iter_states(nm):
    def mid(lr, last):
        def g(ex):
            cx = ex.cx
            q, s, h, b, lo, top, lo2 = (P(cx.fresh(n)) for n in ("q", "s", "h", "b", "lo", "top", "low"))
            t1, t2 = atom("pow2", q * 32), atom("pow2", s)
            cx._pow2_axioms(t1)
            cx._pow2_axioms(t2)
            t1, t2 = P(t1), P(t2)
            d = (h * 2 + b) * t2 + lo
            for c in (-q, -s, s - 31, -h, -b, b - 1, -lo, lo - t2 + 1, -top, -lo2, lo2 - t1 + 1, d - (2 ** 32 - 1)):
                cx.int_assume("le", c)
            k = (top * 2 ** 32 + d) * t1 + lo2
            i = q * 32 + s
            cx.int_assume("le", 1 - k)
            n = cx.bits(k)
            cx.int_assume("le", i + 1 - n)
            cx.memo.setdefault("bits of", []).append((k, i, bool(cx.eq(b, 1))))
            return ref(mk_iter(ex, nm.ty, k, i, lr)),
        return g

    def done(lr):
        def g(ex):
            cx = ex.cx
            k = P(cx.fresh("k"))
            cx.int_assume("le", -k)
            if cx.eq(k, 0):
                k = ZERO
            i = P(2 ** 64 - 1) if lr else cx.bits(k)
            return ref(mk_iter(ex, nm.ty, k, i, lr)),
        return g
    return [("left to right, a bit left", mid(True, False)), ("right to left, a bit left", mid(False, False)),
            ("left to right, exhausted", done(True)), ("right to left, exhausted", done(False))]


@contract("scalar.iter_next", lambda nm: nm.ty in ITN and nm.method == "next", iter_states, props=("C11",),
          check=lambda *a: next_check(*a))
def _(ex, nm, a):
    v = ex.field(D(a[0]), "v")
    if isinstance(v, Ghost) and not v.d.get("in loop") and not v.d["value"].is_const():
        raise Unsupported("bits of a symbolic scalar outside a loop with an invariant")
    return next_spec(ex, nm, a)


def next_spec(ex, nm, a):
    cx = ex.cx
    it = D(a[0])
    l, i, lr = ex.field(it, "l").p, ex.field(it, "i").p, ex.field(it, "is_lr")
    v = ex.field(it, "v")
    if not cx.lt(i, l):
        return ex.none()
    b = bit_of(ex, v.d["value"], i)
    if lr:
        j = P(2 ** 64 - 1) if cx.eq(i, 0) else i - 1
    else:
        j = i + 1
    nx = mk_iter(ex, it.ty, v.d["value"], j, lr)
    DR(a[0]).set(in_loop(ex, nx) if v.d.get("in loop") else nx)
    return ex.some(b)


def next_check(ex, nm, sa, args, out, pan):
    if pan is not None:
        raise ProofFailure("does not panic", pan.msg)
    exp = next_spec(ex, nm, sa)
    compare(ex, out, exp)
    same_iter(ex, D(args[0]), D(sa[0]))
