"""Contracts of src/primefield (C01-C06, C09)."""
from ..engine import contract, lemma
from ..lib import *
from ..ext import D, DR
from ..exec import INT
from ..bytes_ import Rope, Str

ANY = dict(lo=2, odd=False)


def two(**kw):
    """two elements, of one field and of two fields"""
    kw = kw or ANY

    def same_field(ex):
        p = sym_prime(ex, **kw)
        return elt(ex, mk_fp(ex, p), P(ex.cx.ffresh("x"))), elt(ex, mk_fp(ex, p), P(ex.cx.ffresh("y")))

    def diff(ex):
        p, q = sym_prime(ex, "p", **kw), sym_prime(ex, "q", **kw)
        ex.cx.int_assume("eq", p - q, False)
        return elt(ex, mk_fp(ex, p), P(ex.cx.ffresh("x"))), elt(ex, mk_fp(ex, q), P(ex.cx.ffresh("y")))
    return [("same field", same_field), ("!different fields", diff)]


def borrowed(nm, args):
    """arguments by reference or by value according to the signature"""
    return args


def mode(nm, t):
    return t


def as_ref_if(prog, name, i, v):
    return v


def pass_args(ex, name, vals):
    """wrap each value in a reference when the parameter of the function is one"""
    f = ex.prog.by_name[name]
    out = []
    for i, v in enumerate(vals):
        t = ex.prog.types.get(f["locals"][1 + i], {})
        out.append(ref(v) if t.get("k") == "ref" and not isinstance(v, Ref) else v)
    return out


def cases_of(gens):
    """lift value builders to argument builders for a concrete function name"""
    def f(nm):
        return [(l, (lambda g: lambda ex: pass_args(ex, nm.raw, g(ex)))(g)) for l, g in gens]
    return f


def op(trait, method, rhs=FPE, ty=FPE):
    return lambda nm: nm.ty == ty and nm.trait == trait and nm.targ == rhs and nm.method == method


def binary(ex, a, f):
    p, x, h = view(ex, a[0])
    q, y, _ = view(ex, a[1])
    if not same(ex, p, q):
        raise Panic("elements of different fields")
    return elt(ex, h, f(ex.cx.field(p), x, y))


@contract("fp.add", op("Add", "add"), cases_of(two()), props=("C01", "C09"))
def _(ex, nm, a):
    return binary(ex, a, lambda F, x, y: x + y)


@contract("fp.sub", op("Sub", "sub"), cases_of(two()), props=("C01", "C09"))
def _(ex, nm, a):
    return binary(ex, a, lambda F, x, y: x - y)


@contract("fp.mul", op("Mul", "mul"), cases_of(two()), props=("C01", "C09"))
def _(ex, nm, a):
    return binary(ex, a, lambda F, x, y: F.reduce(x * y))


@contract("fp.div", op("Div", "div"), cases_of(two(lo=3)), props=("C02", "C09"))
def _(ex, nm, a):
    return binary(ex, a, lambda F, x, y: F.reduce(x * F.inv0(y)))


def one_elt(**kw):
    kw = kw or ANY

    def g(ex):
        return elt(ex, mk_fp(ex, sym_prime(ex, **kw)), P(ex.cx.ffresh("x"))),
    return [("any element", g)]


@contract("fp.neg", lambda nm: nm.ty == FPE and nm.trait == "Neg" and nm.method == "neg", cases_of(one_elt()),
          props=("C01",))
def _(ex, nm, a):
    p, x, h = view(ex, a[0])
    return elt(ex, h, -x)


def with_int(ty, **kw):
    kw = kw or ANY

    def g(ex):
        n = P(ex.cx.fresh("n"))
        lo, hi, _, _ = INT[ty]
        ex.cx.int_assume("le", P(lo) - n)
        ex.cx.int_assume("le", n - hi)
        return elt(ex, mk_fp(ex, sym_prime(ex, **kw)), P(ex.cx.ffresh("x"))), Int(n, ty)
    return [("any exponent", g)]


@contract("fp.square", op("BitXor", "bitxor", "u32"), cases_of(with_int("u32")), props=("C01", "C09"))
def _(ex, nm, a):
    p, x, h = view(ex, a[0])
    if not ex.cx.eq(D(a[1]).p, 2):
        raise Panic("exponent must be 2u32")
    return elt(ex, h, ex.cx.field(p).reduce(x * x))


@contract("fp.xor_inv", op("BitXor", "bitxor", "i32"), cases_of(with_int("i32", lo=3)), props=("C02", "C09"))
def _(ex, nm, a):
    p, x, h = view(ex, a[0])
    if not ex.cx.eq(D(a[1]).p, -1):
        raise Panic("exponent must be -1i32")
    return elt(ex, h, ex.cx.field(p).inv0(x))


def swapped(ty, **kw):
    return [(l, lambda ex, g=g: tuple(reversed(g(ex)))) for l, g in with_int(ty, **kw)]


@contract("fp.inverse", op("Div", "div", FPE, "u32"), cases_of(swapped("u32", lo=3)), props=("C02", "C09"))
def _(ex, nm, a):
    p, x, h = view(ex, a[1])
    if not ex.cx.eq(D(a[0]).p, 1):
        raise Panic("numerator must be 1u32")
    return elt(ex, h, ex.cx.field(p).inv0(x))


def power(ex, F, x, e):
    """x^e in GF(p): x = 0 gives 0^e; otherwise e may be any integer"""
    cx = ex.cx
    if F.is_zero(x):
        return ONE if cx.eq(e, 0) else ZERO
    if e.is_const() and e.cval() < 0:
        return F.pow(F.inv(x), -e)
    return F.pow_any(x, e)


@contract("fp.pow_uint", op("BitXor", "bitxor", "num_bigint::BigUint"), cases_of(
          [("any exponent", lambda ex: _pow_in(ex, True))]), props=("C02",))
def _(ex, nm, a):
    p, x, h = view(ex, a[0])
    return elt(ex, h, power(ex, ex.cx.field(p), x, D(a[1]).p))


@contract("fp.pow_int", op("BitXor", "bitxor", "num_bigint::BigInt"), cases_of(
          [("any exponent", lambda ex: _pow_in(ex, False))]), props=("C02",))
def _(ex, nm, a):
    p, x, h = view(ex, a[0])
    return elt(ex, h, power(ex, ex.cx.field(p), x, D(a[1]).p))


def _pow_in(ex, unsigned):
    e = P(ex.cx.fresh("e"))
    if unsigned:
        ex.cx.int_assume("le", -e)
    return elt(ex, mk_fp(ex, sym_prime(ex, lo=3)), P(ex.cx.ffresh("x"))), Big(e, unsigned)


# ------------------------------------------------------------------ construction, constants
def field_and(gen, **kw):
    kw = kw or ANY

    def g(ex):
        return (mk_fp(ex, sym_prime(ex, **kw)),) + tuple(gen(ex))
    return [("any field", g)]


def fpfn(trait, method, targ=None):
    return lambda nm: nm.ty == FP and nm.trait == trait and nm.method == method and (targ is None or nm.targ == targ)


@contract("fp.elt", fpfn("Field", "elt"), cases_of(field_and(lambda ex: [Big(P(ex.cx.fresh("n")))])),
          props=("C01", "C05"))
def _(ex, nm, a):
    p = fp_p(ex, a[0])
    return elt(ex, a[0], ex.cx.image(D(a[1]).p, p))


@contract("fp.zero", fpfn("Field", "zero"), cases_of(field_and(lambda ex: [])), props=("C01",))
def _(ex, nm, a):
    return elt(ex, a[0], ZERO)


@contract("fp.one", fpfn("Field", "one"), cases_of(field_and(lambda ex: [])), props=("C01",))
def _(ex, nm, a):
    return elt(ex, a[0], ONE)


@contract("fp.get_modulus", fpfn("Field", "get_modulus"), cases_of(field_and(lambda ex: [])), props=("C01",))
def _(ex, nm, a):
    return Big(fp_p(ex, a[0]))


@contract("fp.new", lambda nm: nm.ty == FP and nm.trait is None and nm.method == "new",
          cases_of([("any modulus", lambda ex: [Big(sym_prime(ex, **ANY), True)])]), props=("C01",))
def _(ex, nm, a):
    return mk_fp(ex, D(a[0]).p)


@contract("fp.is_zero", lambda nm: nm.ty == FPE and nm.trait == "Zero" and nm.method == "is_zero",
          cases_of(one_elt()), props=("C01",))
def _(ex, nm, a):
    p, x, h = view(ex, a[0])
    return ex.cx.field(p).is_zero(x)


@contract("fp.is_one", lambda nm: nm.ty == FPE and nm.trait == "One" and nm.method == "is_one",
          cases_of(one_elt()), props=("C01",))
def _(ex, nm, a):
    p, x, h = view(ex, a[0])
    return ex.cx.field(p).is_zero(x - 1)


@contract("fp.set_zero", lambda nm: nm.ty == FPE and nm.method == "set_zero", cases_of(one_elt()), props=("C01",))
def _(ex, nm, a):
    p, x, h = view(ex, a[0])
    DR(a[0]).set(elt(ex, h, ZERO))
    return UNIT


@contract("fp.set_one", lambda nm: nm.ty == FPE and nm.method == "set_one", cases_of(one_elt()), props=("C01",))
def _(ex, nm, a):
    p, x, h = view(ex, a[0])
    DR(a[0]).set(elt(ex, h, ONE))
    return UNIT


@contract("fp.clone", lambda nm: nm.ty == FPE and nm.method == "clone", cases_of(one_elt()), props=("C01",))
def _(ex, nm, a):
    p, x, h = view(ex, a[0])
    return elt(ex, h, x)


@contract("fp.field_clone", lambda nm: nm.ty == FP and nm.method == "clone", cases_of(field_and(lambda ex: [])),
          props=("C09",))
def _(ex, nm, a):
    return D(a[0])


def two_fields():
    def g(ex):
        return mk_fp(ex, sym_prime(ex, "p", **ANY)), mk_fp(ex, sym_prime(ex, "q", **ANY))
    return [("any two fields", g)]


@contract("fp.field_eq", lambda nm: nm.ty == FP and nm.trait == "PartialEq" and nm.method == "eq",
          cases_of(two_fields()), props=("C09",))
def _(ex, nm, a):
    return same(ex, fp_p(ex, a[0]), fp_p(ex, a[1]))


@contract("fp.eq", lambda nm: nm.ty == FPE and nm.trait == "PartialEq" and nm.method == "eq" and nm.targ == FPE,
          cases_of([("same", two()[0][1]), ("different fields", two()[1][1])]), props=("C01", "C09"))
def _(ex, nm, a):
    p, x, h = view(ex, a[0])
    q, y, _ = view(ex, a[1])
    if not same(ex, p, q):
        return False
    return ex.cx.field(p).is_zero(x - y)


# ------------------------------------------------------------------ conversions and serialization
def size_of(ex, p):
    cx = ex.cx
    return cx.div(cx.bits(p) + 7, P(8))


@contract("fp.size_bytes", fpfn("Field", "size_bytes"), cases_of(field_and(lambda ex: [])), props=("C06",))
def _(ex, nm, a):
    return Int(size_of(ex, fp_p(ex, a[0])), "usize")


def int_input(ty):
    def g(ex):
        n = P(ex.cx.fresh("n"))
        lo, hi, _, _ = INT[ty]
        ex.cx.int_assume("le", P(lo) - n)
        ex.cx.int_assume("le", n - hi)
        return [Int(n, ty)]
    return g


@contract("fp.from_int", lambda nm: nm.ty == FP and nm.trait == "FromFactory" and nm.targ in INT,
          lambda nm: cases_of(field_and(int_input(nm.targ)))(nm), props=("C05",))
def _(ex, nm, a):
    p = fp_p(ex, a[0])
    return elt(ex, a[0], ex.cx.image(D(a[1]).p, p))


PREFIX = {"": 10, "0x": 16, "0o": 8, "0b": 2}


def numeral(ex, prefix, neg, name="v"):
    """a well-formed numeral: optional sign, radix prefix, one or more digits (leading zeros included)"""
    v, n = P(ex.cx.fresh(name)), P(ex.cx.fresh(name + "len"))
    ex.cx.int_assume("le", -v)
    ex.cx.int_assume("le", 1 - n)
    s = Str([("lit", ("-" if neg else "") + prefix), ("dig", PREFIX[prefix], v, n)])
    return s, -v if neg else v


def str_cases(field=None, **kw):
    out = [("empty string", lambda ex: (mk_fp(ex, sym_prime(ex, **ANY)), ref(Str([]))))]
    for pre in PREFIX:
        for neg in (False, True):
            out.append((f"numeral {'-' if neg else ''}{pre}..", (lambda pre, neg: lambda ex: (
                mk_fp(ex, sym_prime(ex, **ANY)), ref(numeral(ex, pre, neg)[0])))(pre, neg)))
    return out


def numeral_value(ex, s):
    """value of a well-formed numeral; None: not well formed; the empty string is 0"""
    t = s.text()
    if t is not None:
        if t == "":
            return ZERO
        u = t[1:] if t.startswith("-") else t
        rad = 10
        if u[:2] in PREFIX and u[:2]:
            rad, u = PREFIX[u[:2]], u[2:]
        digs = "0123456789abcdef"
        u = u.lower()
        if not u or any(c not in digs[:rad] for c in u):
            return None
        v = int(u, rad)
        return P(-v if t.startswith("-") else v)
    segs = list(s.s)
    neg = False
    pre = ""
    if segs[0][0] == "lit":
        pre = segs[0][1]
        if pre.startswith("-"):
            neg, pre = True, pre[1:]
        segs = segs[1:]
    if pre in PREFIX and len(segs) == 1 and segs[0][0] == "dig" and segs[0][1] == PREFIX[pre]:
        return -segs[0][2] if neg else segs[0][2]
    if not neg and pre == "" and len(segs) == 1 and segs[0][:2] == ("num", 10):
        return segs[0][2]
    return None


@contract("fp.from_str", lambda nm: nm.ty == FP and nm.trait == "FromFactory" and nm.targ == "str",
          cases_of(str_cases()), props=("C05",))
def _(ex, nm, a):
    v = numeral_value(ex, D(a[1]))
    if v is None:
        raise Unsupported("not a well-formed numeral")
    return elt(ex, a[0], ex.cx.image(v, fp_p(ex, a[0])))


def any_bytes(ex, name="w"):
    """every byte string: a length and a big-endian value"""
    n, w = P(ex.cx.fresh(name + "len")), P(ex.cx.fresh(name))
    ex.cx.int_assume("le", -n)
    ex.cx.int_assume("le", n - 2 ** 48)
    ex.cx.int_assume("le", -w)
    return n, w


def bytes_cases():
    def g(kind):
        def b(ex):
            n, w = any_bytes(ex)
            return mk_fp(ex, sym_prime(ex, **ANY)), ref(Rope([(kind, w, n)]))
        return b
    return [("any byte string", g)]


@contract("fp.from_bytes", lambda nm: nm.ty == FP and nm.trait == "Deserialize" and nm.method in
          ("from_bytes_be", "from_bytes_le"),
          lambda nm: cases_of([("any byte string", bytes_cases()[0][1](nm.method[-2:]))])(nm), props=("C06",))
def _(ex, nm, a):
    r = D(a[1]).copy()
    v = r.value_be(ex.cx) if nm.method.endswith("be") else r.value_le(ex.cx)
    return ex.ok(elt(ex, a[0], ex.cx.image(v, fp_p(ex, a[0]))))


@contract("fp.to_bytes", lambda nm: nm.ty == FPE and nm.trait == "Serialize" and nm.method in
          ("to_bytes_be", "to_bytes_le"), cases_of(one_elt()), props=("C06",))
def _(ex, nm, a):
    p, x, h = view(ex, a[0])
    n = size_of(ex, p)
    v = ex.cx.lift(p, x)
    return Rope.be(v, n) if nm.method.endswith("be") else Rope.le(v, n)


# ------------------------------------------------------------------ sign, selection, squares, roots
@contract("fp.sgn0", lambda nm: nm.ty == FPE and nm.method == "sgn0", cases_of(one_elt(lo=2, odd=False)),
          props=("C04",))
def _(ex, nm, a):
    p, x, h = view(ex, a[0])
    return Int(-1 if odd_rep(ex, p, x) else 1, "i32")


def odd_rep(ex, p, x):
    """parity of the canonical representative"""
    return ex.cx.eq(ex.cx.mod(ex.cx.lift(p, x), P(2)), 1)


@contract("fp.cmov", lambda nm: nm.ty == FPE and nm.method == "cmov", cases_of(
    [(f"selector {b}", (lambda b: lambda ex: tuple(two()[0][1](ex)) + (b,))(b)) for b in (False, True)]),
    props=("C04",))
def _(ex, nm, a):
    v = D(a[1] if D(a[2]) else a[0])
    p, x, h = view(ex, v)
    return elt(ex, h, x)


@contract("fp.is_square", lambda nm: nm.ty == FPE and nm.method == "is_square", cases_of(
    one_elt(lo=3) + [("p = 3 mod 4", one_elt(lo=3, m4=3)[0][1]), ("p = 5 mod 8", one_elt(lo=3, m8=5)[0][1])]),
    props=("C03",))
def _(ex, nm, a):
    p, x, h = view(ex, a[0])
    return ex.cx.field(p).is_square(x)


def sqrt_check(ex, nm, sa, args, out, pan):
    if pan is not None:
        raise ProofFailure("does not panic", pan.msg)
    p, x, h = view(ex, sa[0])
    F = ex.cx.field(p)
    q, r, _ = view(ex, out, "the root")
    compare(ex, Big(q), Big(p), "modulus of the root")
    if F.is_square(x):
        if not F.is_zero(F.reduce(r * r) - x):
            raise ProofFailure("the square of the root is the input", f"root {r} of {x}")
    # the caches of the handles involved still hold what the library computes for p
    check_cache(ex, ex.field(D(args[0]), "f"))


def check_cache(ex, h):
    check_cells(ex, fp_params(ex, h), h, "primefield::Fp::calc_sqrt_precmp")


@contract("fp.sqrt", lambda nm: nm.ty == FPE and nm.method == "sqrt", cases_of(
    [("p = 3 mod 4", one_elt(lo=3, m4=3)[0][1]), ("p = 5 mod 8", one_elt(lo=3, m8=5)[0][1])]),
    check=sqrt_check, props=("C03",))
def _(ex, nm, a):
    p, x, h = view(ex, a[0])
    F = ex.cx.field(p)
    if F.pmod(4) != 3 and F.pmod(8) != 5:
        raise Unsupported("square root for p = 1 mod 8 or unknown p")
    return elt(ex, h, F.sqrt(x))
