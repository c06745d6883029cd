"""Contracts of src/quadraticfield (C04-C08): GF(p^2) = GF(p)[i], i*i = -1, p = 3 mod 4."""
from ..engine import contract, lemma
from ..lib import *
from ..ext import D, DR
from ..exec import INT
from ..bytes_ import Rope, Str
from ..loops import install, AuxFailure
from .fp import (cases_of, op, int_input, numeral, numeral_value, PREFIX, any_bytes, size_of, odd_rep)

Q = dict(lo=3, m4=3)


# ------------------------------------------------------------------ views
def mk_fp2(ex, pk):
    base = mk_fp(ex, pk)
    par, cells = cached_params(ex, "quadraticfield::Params", {"base": base},
                               ("quadraticfield::Fp2::new", [Big(pk, True)]), "quadraticfield::Fp2::calc_sqrt_precmp")
    h = ex.adt(FP2, **{"0": Arc(par)})
    lazy_cells(ex, h, cells, "quadraticfield::Fp2::calc_sqrt_precmp", None, "GF(p^2) square-root cache empty")
    return h


def elt2(ex, h, x):
    h = D(h)
    b = fp2_base(ex, h)
    return ex.adt(FP2E, n=Arr([elt(ex, b, x[0]), elt(ex, b, x[1])]), f=h)


def view2(ex, v, what="argument"):
    v = D(v)
    if not isinstance(v, Adt) or v.ty != FP2E:
        raise Unsupported(f"GF(p^2) element {v!r}")
    h = ex.field(v, "f")
    pk = fp_p(ex, fp2_base(ex, h))
    n = ex.field(v, "n")
    if not isinstance(n, Arr) or len(n.f) != 2:
        raise ProofFailure(f"{what} has two components", repr(n))
    out = []
    for i in range(2):
        q, r, _ = view(ex, n.f[i], f"component {i} of {what}")
        if not same(ex, q, pk):
            raise ProofFailure(f"components of {what} lie in the base field", f"{q} {pk}")
        out.append(r)
    return pk, tuple(out), h


def mul2(F, x, y):
    return F.reduce(x[0] * y[0] - x[1] * y[1]), F.reduce(x[0] * y[1] + x[1] * y[0])


def norm(F, x):
    return F.reduce(x[0] * x[0] + x[1] * x[1])


def conj(x):
    return x[0], -x[1]


def is_zero2(F, x):
    return F.is_zero(x[0]) and F.is_zero(x[1])


def nonzero2(F, x):
    """x is known nonzero: its norm is nonzero because -1 is not a square"""
    n = norm(F, x)
    if not F.known_nonzero(n):
        F.assume_nonzero(n)


def inv2(F, x):
    """inverse, with inverse of 0 = 0"""
    if is_zero2(F, x):
        return ZERO, ZERO
    nonzero2(F, x)
    d = F.inv(norm(F, x))
    return F.reduce(x[0] * d), F.reduce(-x[1] * d)


def half(ex, F, x):
    """x^((p-1)/2) for x != 0: h with h^2 x = conj(x) and N(h) = chi(N(x))"""
    memo = ex.cx.memo.setdefault(("half", F.pk), [])
    for y, h in memo:
        if F.num(x[0] - y[0]).is_zero() and F.num(x[1] - y[1]).is_zero():
            return h
    nonzero2(F, x)
    n = norm(F, x)
    c, d = mul2(F, conj(x), inv2(F, x))       # h^2 = c + d i, c^2 + d^2 = 1
    chi = ONE if F.is_square(n) else -ONE
    h0, h1 = ex.cx.ffresh("h"), None
    half_ = F.inv(P(2))
    if not F.is_zero(d):
        # 2 h0 h1 = d, h0^2 = (chi + c)/2, both nonzero
        F.rules.append((h0, 2, F.reduce((chi + c) * half_)))
        F.rc.clear()
        F.assume_nonzero(P(h0))
        h = (P(h0), F.reduce(d * half_ * F.inv(P(h0))))
    else:
        # h^2 = c = +-1 and N(h) = chi: h0 h1 = 0
        if F.is_zero(c - 1):
            if chi == ONE:
                h = (ONE if ex.cx.choose("root of one") else -ONE, ZERO)
            else:
                raise Infeasible()     # h^2 = 1 gives N(h) = 1
        else:
            if chi == ONE:
                h = (ZERO, ONE if ex.cx.choose("root of minus one") else -ONE)
            else:
                raise Infeasible()
    memo.append((x, h))
    return h


def powi(F, x, n):
    r, b = (ONE, ZERO), x
    if n < 0:
        n, b = -n, inv2(F, x)
    while n:
        if n & 1:
            r = mul2(F, r, b)
        b = mul2(F, b, b)
        n >>= 1
    return r


def witness(ex, F, x):
    """s with s^2 = x when the input class provides one"""
    for y, s in ex.cx.memo.get(("root2", F.pk), []):
        if F.num(x[0] - y[0]).is_zero() and F.num(x[1] - y[1]).is_zero():
            return s
    return None


def pow2any(ex, F, x, e):
    """x^e, e >= 0"""
    cx = ex.cx
    e = P(e)
    if e.is_const() and e.cval() <= 64:
        return powi(F, x, e.cval())
    ab = F._affine(e) if F.pmod(4) == 3 else None
    if is_zero2(F, x):
        return (ONE if cx.eq(e, 0) else ZERO), ZERO
    if ab is None and cx.eq(e, 0):
        return ONE, ZERO
    if ab is not None:
        al, be = ab
        if al % 2 == 0:
            return mul2(F, powi(F, half(ex, F, x), al // 2), powi(F, x, be - al // 2))
        s = witness(ex, F, x)
        if s is not None:
            return mul2(F, powi(F, half(ex, F, s), al), powi(F, s, 2 * be - al))
    for y, e2, r in cx.memo.setdefault(("pow2", F.pk), []):
        if F.num(x[0] - y[0]).is_zero() and F.num(x[1] - y[1]).is_zero() and cx.int_valid("eq", e - e2):
            return r
    r = P(cx.ffresh("w")), P(cx.ffresh("w"))
    cx.memo[("pow2", F.pk)].append((x, e, r))
    return r


# ------------------------------------------------------------------ inputs
def pair(ex, name):
    return P(ex.cx.ffresh(name + "0")), P(ex.cx.ffresh(name + "1"))


def two2(**kw):
    kw = kw or Q

    def s(ex):
        p = sym_prime(ex, **kw)
        return elt2(ex, mk_fp2(ex, p), pair(ex, "x")), elt2(ex, mk_fp2(ex, p), pair(ex, "y"))

    def d(ex):
        p, q = sym_prime(ex, "p", **kw), sym_prime(ex, "q", **kw)
        ex.cx.int_assume("eq", p - q, False)
        return elt2(ex, mk_fp2(ex, p), pair(ex, "x")), elt2(ex, mk_fp2(ex, q), pair(ex, "y"))
    return [("same field", s), ("!different fields", d)]


def two2nz():
    """the second element zero or not (needs the case split on the norm)"""
    def s(ex):
        p = sym_prime(ex, **Q)
        y = pair(ex, "y")
        F = ex.cx.field(p)
        if not is_zero2(F, y):
            nonzero2(F, y)
        return elt2(ex, mk_fp2(ex, p), pair(ex, "x")), elt2(ex, mk_fp2(ex, p), y)
    return [("same field", s), two2()[1]]


def one2(split=False):
    def g(ex):
        p = sym_prime(ex, **Q)
        x = pair(ex, "x")
        if split:
            F = ex.cx.field(p)
            if not is_zero2(F, x):
                nonzero2(F, x)
        return elt2(ex, mk_fp2(ex, p), x),
    return [("any element", g)]


def squares(ex):
    p = sym_prime(ex, **Q)
    s = pair(ex, "s")
    F = ex.cx.field(p)
    if not is_zero2(F, s):
        nonzero2(F, s)
    x = mul2(F, s, s)
    ex.cx.memo[("root2", p)] = [(x, s)]
    return elt2(ex, mk_fp2(ex, p), x),


def with_int2(ty, swap=False):
    def g(ex):
        n = P(ex.cx.fresh("n"))
        lo, hi, _, _ = INT[ty]
        ex.cx.int_assume("le", P(lo) - n)
        ex.cx.int_assume("le", n - hi)
        r = (one2(True)[0][1](ex)[0], Int(n, ty))
        return tuple(reversed(r)) if swap else r
    return [("any integer", g)]


def field2(gen):
    return [("any field", lambda ex: (mk_fp2(ex, sym_prime(ex, **Q)),) + tuple(gen(ex)))]


def op2(trait, method, rhs=FP2E):
    return op(trait, method, rhs, FP2E)


def bin2(ex, a, f):
    p, x, h = view2(ex, a[0])
    q, y, _ = view2(ex, a[1])
    if not same(ex, p, q):
        raise Panic("elements of different fields")
    return elt2(ex, h, f(ex.cx.field(p), x, y))


# ------------------------------------------------------------------ arithmetic
@contract("fp2.add", op2("Add", "add"), cases_of(two2()), props=("C07", "C09"))
def _(ex, nm, a):
    return bin2(ex, a, lambda F, x, y: (x[0] + y[0], x[1] + y[1]))


@contract("fp2.sub", op2("Sub", "sub"), cases_of(two2()), props=("C07", "C09"))
def _(ex, nm, a):
    return bin2(ex, a, lambda F, x, y: (x[0] - y[0], x[1] - y[1]))


@contract("fp2.mul", op2("Mul", "mul"), cases_of(two2()), props=("C07", "C09"))
def _(ex, nm, a):
    return bin2(ex, a, mul2)


@contract("fp2.div", op2("Div", "div"), cases_of(two2nz()), props=("C07", "C09"))
def _(ex, nm, a):
    return bin2(ex, a, lambda F, x, y: mul2(F, x, inv2(F, y)))


@contract("fp2.neg", lambda nm: nm.ty == FP2E and nm.trait == "Neg" and nm.method == "neg", cases_of(one2()),
          props=("C07",))
def _(ex, nm, a):
    p, x, h = view2(ex, a[0])
    return elt2(ex, h, (-x[0], -x[1]))


@contract("fp2.square", op2("BitXor", "bitxor", "u32"), cases_of(with_int2("u32")), props=("C07", "C09"))
def _(ex, nm, a):
    p, x, h = view2(ex, a[0])
    if not ex.cx.eq(D(a[1]).p, 2):
        raise Panic("exponent must be 2u32")
    return elt2(ex, h, mul2(ex.cx.field(p), x, x))


@contract("fp2.xor_inv", op2("BitXor", "bitxor", "i32"), cases_of(with_int2("i32")), props=("C07", "C09"))
def _(ex, nm, a):
    p, x, h = view2(ex, a[0])
    if not ex.cx.eq(D(a[1]).p, -1):
        raise Panic("exponent must be -1i32")
    return elt2(ex, h, inv2(ex.cx.field(p), x))


@contract("fp2.inverse", op("Div", "div", FP2E, "u32"), cases_of(with_int2("u32", True)), props=("C07", "C09"))
def _(ex, nm, a):
    p, x, h = view2(ex, a[1])
    if not ex.cx.eq(D(a[0]).p, 1):
        raise Panic("numerator must be 1u32")
    return elt2(ex, h, inv2(ex.cx.field(p), x))


def pow_in(uns):
    def g(ex):
        e = P(ex.cx.fresh("e"))
        ex.cx.int_assume("le", -e)
        return one2()[0][1](ex)[0], Big(e, uns)
    return [("any exponent >= 0", g)]


class DigitLoop:
    """outer loop over the base-2^32 digits, most significant first: out = x^N for the digits consumed so far"""

    def __init__(self, ex, fr, acc, it, x, F, h, e, st):
        self.acc, self.it, self.x, self.F, self.h, self.e, self.st = acc, it, x, F, h, e, st

    def value(self, ex, fr):
        return view2(ex, fr.L[self.acc])[1]

    def eq(self, ex, fr, want, what):
        got = self.value(ex, fr)
        for i in range(2):
            if not self.F.known_zero(got[i] - want[i]):
                raise AuxFailure(what, f"{got} instead of {want}")

    def enter(self, ex, fr):
        cx, F, st = ex.cx, self.F, self.st
        self.eq(ex, fr, (ONE, ZERO), "before the first digit the result is one")
        self.taken = 0
        if cx.choose("all digits consumed"):
            fr.L[self.acc] = elt2(ex, self.h, pow2any(ex, F, self.x, self.e))
            nxt = lambda ex: ex.none()
        else:
            u = pair(ex, "u")
            st["N"] = u
            st["final"] = None
            fr.L[self.acc] = elt2(ex, self.h, u)
            d = P(cx.fresh("d"))
            cx.int_assume("le", -d)
            cx.int_assume("le", d - (2 ** 32 - 1))
            st["d"] = d
            st["cell"] = [Int(d, "u32")]

            def nxt(ex):
                self.taken += 1
                return ex.some(Ref(st["cell"], 0))
        fr.L[self.it] = Ghost("symiter", seq=None, rev=True, next=nxt)
        return {self.acc, self.it}

    def step(self, ex, fr):
        if self.taken != 1 or self.st.get("final") is None:
            raise Unsupported("shape of the digit loop")
        self.eq(ex, fr, self.st["final"], "after a digit the result is x^(2^32 N + d)")


class BitLoop(DigitLoop):
    """inner loop over the 32 bits of a digit, most significant first"""

    def enter(self, ex, fr):
        cx, st = ex.cx, self.st
        self.eq(ex, fr, st["N"], "before the bits of a digit the result is x^N")
        self.taken = 0
        w = pair(ex, "w")
        fr.L[self.acc] = elt2(ex, self.h, w)
        if cx.choose("all bits consumed"):
            st["final"] = w
            nxt = lambda ex: ex.none()
        else:
            j, h, b, l = (P(cx.fresh(n)) for n in ("j", "hi", "bit", "lo"))
            cx.int_assume("le", -j)
            cx.int_assume("le", j - 31)
            t = cx.pow2(j) if False else P(atom("pow2", j))
            cx._pow2_axioms(next(iter(t.atoms())))
            for c in (-h, -b, b - 1, -l, l - t + 1, (h * 2 + b) * t + l - (2 ** 32 - 1)):
                cx.int_assume("le", c)
            st["cell"][0] = Int((h * 2 + b) * t + l, "u32")
            self.b, self.w = b, w

            def nxt(ex):
                self.taken += 1
                return ex.some(Int(j, self.ty))
        fr.L[self.it] = Ghost("symiter", seq=None, rev=True, next=nxt)
        return {self.acc, self.it}

    def step(self, ex, fr):
        if self.taken != 1:
            raise Unsupported("shape of the bit loop")
        F = self.F
        want = mul2(F, self.w, self.w)
        if ex.cx.eq(self.b, 1):
            want = mul2(F, want, self.x)
        self.eq(ex, fr, want, "after a bit b the result is x^(2n + b)")


class BitIndex(DigitLoop):
    """while-style loop over an index i running from the number of bits down to zero: out = x^(e >> i)"""

    def __init__(self, ex, fr, acc, ix, x, F, h, e):
        self.acc, self.ix, self.x, self.F, self.h, self.e = acc, ix, x, F, h, e

    def enter(self, ex, fr):
        cx, F = ex.cx, self.F
        self.eq(ex, fr, (ONE, ZERO), "before the first bit the result is one")
        i0 = fr.L[self.ix]
        if not cx.int_valid("le", cx.bits(self.e) - i0.p):
            raise Unsupported("loop that starts below the top bit")
        if cx.choose("all bits consumed"):
            fr.L[self.ix] = Int(0, i0.ty)
            fr.L[self.acc] = elt2(ex, self.h, pow2any(ex, F, self.x, self.e))
            self.i = None
        else:
            i = P(cx.fresh("i"))
            cx.int_assume("le", ONE - i)
            cx.int_assume("le", i - i0.p)
            self.u = pair(ex, "u")
            fr.L[self.ix] = Int(i, i0.ty)
            fr.L[self.acc] = elt2(ex, self.h, self.u)
            self.i = i
        return {self.acc, self.ix}

    def step(self, ex, fr):
        if self.i is None:
            raise AuxFailure("the loop ends when the bits are consumed", "")
        cx, F = ex.cx, self.F
        j = self.i - 1
        if not cx.int_valid("eq", fr.L[self.ix].p - j):
            raise Unsupported("shape of the bit loop")
        want = mul2(F, self.u, self.u)
        if cx.eq(cx.mod(cx.div(self.e, cx.pow2(j)), 2), 1):
            want = mul2(F, want, self.x)
        self.eq(ex, fr, want, "after bit i the result is x^(e >> i)")


class Halving(DigitLoop):
    """right-to-left loop that halves the exponent: out * base^n = x^e"""

    def __init__(self, ex, fr, acc, base, cur, x, F, h, e):
        self.acc, self.base, self.cur, self.x, self.F, self.h, self.e = acc, base, cur, x, F, h, e

    def enter(self, ex, fr):
        cx, F = ex.cx, self.F
        self.eq(ex, fr, (ONE, ZERO), "before the first bit the result is one")
        same2(F, view2(ex, fr.L[self.base])[1], self.x, "before the first bit the base is x")
        n0 = fr.L[self.cur]
        if not cx.int_valid("eq", n0.p - self.e):
            raise Unsupported("loop over another number")
        self.v = pair(ex, "v")
        fr.L[self.base] = elt2(ex, self.h, self.v)
        if cx.choose("all bits consumed"):
            fr.L[self.cur] = Big(ZERO, n0.uns)
            fr.L[self.acc] = elt2(ex, self.h, pow2any(ex, F, self.x, self.e))
            self.n = None
        else:
            self.n = P(cx.fresh("n"))
            cx.int_assume("le", ONE - self.n)
            self.u = pair(ex, "u")
            fr.L[self.cur] = Big(self.n, n0.uns)
            fr.L[self.acc] = elt2(ex, self.h, self.u)
        return {self.acc, self.base, self.cur}

    def step(self, ex, fr):
        if self.n is None:
            raise AuxFailure("the loop ends when the bits are consumed", "")
        cx, F = ex.cx, self.F
        want = self.u
        if cx.eq(cx.mod(self.n, 2), 1):
            want = mul2(F, want, self.v)
        self.eq(ex, fr, want, "after bit b the result is multiplied by base^b")
        same2(F, view2(ex, fr.L[self.base])[1], mul2(F, self.v, self.v), "after a bit the base is squared")
        if not cx.big_eq(fr.L[self.cur].p, cx.div(self.n, 2)):
            raise AuxFailure("after a bit the exponent is halved", str(fr.L[self.cur]))


class LowDigits(DigitLoop):
    """outer right-to-left loop: out = x^L, base = x^(2^(32 t)), L the t digits consumed so far"""

    def __init__(self, ex, fr, acc, base, it, x, F, h, e, st):
        DigitLoop.__init__(self, ex, fr, acc, it, x, F, h, e, st)
        self.base = base

    def both(self, ex, fr, want, what):
        self.eq(ex, fr, want[0], what)
        same2(self.F, view2(ex, fr.L[self.base])[1], want[1], what)

    def enter(self, ex, fr):
        cx, F, st = ex.cx, self.F, self.st
        self.both(ex, fr, ((ONE, ZERO), self.x), "before the first digit the result is one and the base is x")
        self.taken = 0
        v = pair(ex, "v")
        fr.L[self.base] = elt2(ex, self.h, v)
        if cx.choose("all digits consumed"):
            fr.L[self.acc] = elt2(ex, self.h, pow2any(ex, F, self.x, self.e))
            nxt = lambda ex: ex.none()
        else:
            u = pair(ex, "u")
            st["N"] = u, v
            st["final"] = None
            fr.L[self.acc] = elt2(ex, self.h, u)
            d = P(cx.fresh("d"))
            cx.int_assume("le", -d)
            cx.int_assume("le", d - (2 ** 32 - 1))
            st["cell"] = [Int(d, "u32")]

            def nxt(ex):
                self.taken += 1
                return ex.some(Ref(st["cell"], 0))
        fr.L[self.it] = Ghost("symiter", seq=None, rev=False, next=nxt)
        return {self.acc, self.it, self.base}

    def step(self, ex, fr):
        if self.taken != 1 or self.st.get("final") is None:
            raise Unsupported("shape of the digit loop")
        self.both(ex, fr, self.st["final"], "after a digit the result is x^(L + 2^(32 t) d) and the base x^(2^(32 t + 32))")


class LowBits(LowDigits):
    """inner loop over the 32 bits of a digit, least significant first"""

    def enter(self, ex, fr):
        cx, st = ex.cx, self.st
        self.both(ex, fr, st["N"], "before the bits of a digit the result and the base are those of the digit")
        self.taken = 0
        w, v = pair(ex, "w"), pair(ex, "v")
        fr.L[self.acc], fr.L[self.base] = elt2(ex, self.h, w), elt2(ex, self.h, v)
        ty = self.ty
        if cx.choose("all bits consumed"):
            st["final"] = w, v
            j, fr.L[self.it] = None, Adt(fr.L[self.it].ty, 0, [Int(32, ty), Int(32, ty)])
        else:
            j = P(cx.fresh("j"))
            cx.int_assume("le", -j)
            cx.int_assume("le", j - 31)
            fr.L[self.it] = Adt(fr.L[self.it].ty, 0, [Int(j, ty), Int(32, ty)])
        self.j, self.w, self.v = j, w, v
        return {self.acc, self.base, self.it}

    def step(self, ex, fr):
        cx, F = ex.cx, self.F
        if self.j is None or not cx.int_valid("eq", fr.L[self.it].f[0].p - self.j - 1):
            raise Unsupported("shape of the bit loop")
        want = self.w
        if cx.eq(cx.mod(cx.div(self.st["cell"][0].p, cx.pow2(self.j)), 2), 1):
            want = mul2(F, want, self.v)
        self.both(ex, fr, (want, mul2(F, self.v, self.v)), "after a bit b the result is multiplied by base^b and the base squared")


def same2(F, x, y, what):
    for i in range(2):
        if not F.known_zero(x[i] - y[i]):
            raise AuxFailure(what, f"{x} instead of {y}")


def pow_loops(ex, nm, f):
    st = {}

    def make(ex, fr, mods):
        accs = [i for i, v in mods.items() if isinstance(v, Adt) and v.ty == FP2E]
        its = [i for i, v in mods.items() if isinstance(v, Ghost) or
               isinstance(v, Adt) and v.ty.startswith("std::ops::Range")]
        if len(its) == 1 and isinstance(fr.L[its[0]], Ghost) and fr.L[its[0]].kind == "iter" and "N" not in st and \
                (fr.L[its[0]].d.get("range") is None or fr.L[its[0]].d["range"].f[1].p.is_const()):
            return None          # a sequence of known length: executed as it is
        p, x, h = view2(ex, fr.L[1])
        F = ex.cx.field(p)
        e = D(fr.L[2]).p
        if "cell" in st and isinstance(st["N"][0], tuple):
            # bits of a digit, right to left
            accs = [i for i in accs if i in (st["acc"], st["base"])]
            if len(its) == 1 and len(accs) == 2 and isinstance(fr.L[its[0]], Adt) and fr.L[its[0]].f[0].p == 0 and \
                    fr.L[its[0]].f[1].p == 32:
                b = LowBits(ex, fr, st["acc"], st["base"], its[0], x, F, h, e, st)
                b.ty = fr.L[its[0]].f[0].ty
                return b
            raise Unsupported("loop over an unrecognised sequence")
        if len(accs) == 2 and "cell" not in st:
            # right to left
            acc = [i for i in accs if all(F.known_zero(c) for c in (view2(ex, fr.L[i])[1][0] - 1, view2(ex, fr.L[i])[1][1]))]
            if len(acc) != 1:
                raise Unsupported("loop without a recognised accumulator")
            base = next(i for i in accs if i != acc[0])
            if len(its) == 1 and isinstance(fr.L[its[0]], Ghost) and fr.L[its[0]].kind == "symiter" and not fr.L[its[0]].d["rev"]:
                if fr.L[its[0]].d["seq"].d["value"] != e:
                    raise Unsupported("digits of another number")
                st["acc"], st["base"] = acc[0], base
                return LowDigits(ex, fr, acc[0], base, its[0], x, F, h, e, st)
            bigs = [i for i, v in mods.items() if isinstance(v, Big)]
            if not its and len(bigs) == 1:
                return Halving(ex, fr, acc[0], base, bigs[0], x, F, h, e)
            raise Unsupported("loop over an unrecognised sequence")
        if len(accs) == 1 and not its:
            ints = [i for i, v in mods.items() if isinstance(v, Int)]
            if len(ints) == 1:
                return BitIndex(ex, fr, accs[0], ints[0], x, F, h, e)
        if len(accs) == 1 and len(its) == 1 and "cell" not in st:
            it = fr.L[its[0]]
            rng = it.d.get("range") if isinstance(it, Ghost) else None
            if rng is not None and not rng.f[1].p.is_const() and rng.f[0].p == 0:
                return BitRange(ex, fr, accs[0], its[0], x, F, h, e)
        if len(accs) != 1 or len(its) != 1 or not isinstance(fr.L[its[0]], Ghost):
            raise Unsupported("loop without a recognised accumulator")
        it = fr.L[its[0]]
        if it.kind == "symiter" and it.d.get("seq") is not None and it.d["rev"]:
            if it.d["seq"].d["value"] != e:
                raise Unsupported("digits of another number")
            return DigitLoop(ex, fr, accs[0], its[0], x, F, h, e, st)
        r = it.d.get("range")
        if it.kind == "iter" and r is not None and "N" in st and r.f[0].p == 0 and r.f[1].p == 32:
            b = BitLoop(ex, fr, accs[0], its[0], x, F, h, e, st)
            b.ty = r.f[0].ty
            return b
        raise Unsupported("loop over an unrecognised sequence")
    install(ex, f, make)


class BitRange(BitIndex):
    """`for i in (0..bits).rev()`"""

    def enter(self, ex, fr):
        cx, F = ex.cx, self.F
        self.eq(ex, fr, (ONE, ZERO), "before the first bit the result is one")
        it = fr.L[self.ix]
        r = it.d["range"]
        ty, top = r.f[1].ty, r.f[1].p
        if not cx.int_valid("le", cx.bits(self.e) - top):
            raise Unsupported("loop that starts below the top bit")
        if cx.choose("all bits consumed"):
            i = ZERO
            fr.L[self.acc] = elt2(ex, self.h, pow2any(ex, F, self.x, self.e))
            self.i = None
        else:
            i = P(cx.fresh("i"))
            cx.int_assume("le", ONE - i)
            cx.int_assume("le", i - top)
            self.u = pair(ex, "u")
            fr.L[self.acc] = elt2(ex, self.h, self.u)
            self.i = i
        self.cell = [Int(0, ty), Int(i, ty)]

        def nxt(ex):
            if self.cell[1].p.is_zero():
                return ex.none()
            self.cell[1] = Int(self.cell[1].p - 1, ty)
            return ex.some(self.cell[1])
        fr.L[self.ix] = Ghost("iter", next=nxt, next_back=None)
        return {self.acc, self.ix}

    def step(self, ex, fr):
        fr.L[self.ix] = self.cell[1]
        BitIndex.step(self, ex, fr)


@contract("fp2.pow_uint", op2("BitXor", "bitxor", "num_bigint::BigUint"), cases_of(pow_in(True)), props=("C07",),
          loops=pow_loops)
def _(ex, nm, a):
    p, x, h = view2(ex, a[0])
    return elt2(ex, h, pow2any(ex, ex.cx.field(p), x, D(a[1]).p))


@contract("fp2.pow_int", op2("BitXor", "bitxor", "num_bigint::BigInt"), cases_of(pow_in(False)), props=("C07",))
def _(ex, nm, a):
    p, x, h = view2(ex, a[0])
    if not ex.cx.le(0, D(a[1]).p):
        raise Unsupported("negative exponent")
    return elt2(ex, h, pow2any(ex, ex.cx.field(p), x, D(a[1]).p))


# ------------------------------------------------------------------ construction
def fp2fn(trait, method):
    return lambda nm: nm.ty == FP2 and nm.trait == trait and nm.method == method


def base_p(ex, h):
    return fp_p(ex, fp2_base(ex, h))


@contract("fp2.elt", fp2fn("Field", "elt"), cases_of(field2(lambda ex: [Big(P(ex.cx.fresh("n")))])),
          props=("C05", "C07"))
def _(ex, nm, a):
    return elt2(ex, a[0], (ex.cx.image(D(a[1]).p, base_p(ex, a[0])), ZERO))


@contract("fp2.zero", fp2fn("Field", "zero"), cases_of(field2(lambda ex: [])), props=("C07",))
def _(ex, nm, a):
    return elt2(ex, a[0], (ZERO, ZERO))


@contract("fp2.one", fp2fn("Field", "one"), cases_of(field2(lambda ex: [])), props=("C07",))
def _(ex, nm, a):
    return elt2(ex, a[0], (ONE, ZERO))


@contract("fp2.get_modulus", fp2fn("Field", "get_modulus"), cases_of(field2(lambda ex: [])), props=("C07",))
def _(ex, nm, a):
    return Big(base_p(ex, a[0]))


@contract("fp2.new", lambda nm: nm.ty == FP2 and nm.trait is None and nm.method == "new",
          cases_of([("any modulus", lambda ex: [Big(sym_prime(ex, **Q), True)])]), props=("C07",))
def _(ex, nm, a):
    return mk_fp2(ex, D(a[0]).p)


@contract("fp2.is_zero", lambda nm: nm.ty == FP2E and nm.trait == "Zero" and nm.method == "is_zero",
          cases_of(one2()), props=("C07",))
def _(ex, nm, a):
    p, x, h = view2(ex, a[0])
    return is_zero2(ex.cx.field(p), x)


@contract("fp2.is_one", lambda nm: nm.ty == FP2E and nm.trait == "One" and nm.method == "is_one",
          cases_of(one2()), props=("C07",))
def _(ex, nm, a):
    p, x, h = view2(ex, a[0])
    F = ex.cx.field(p)
    return F.is_zero(x[0] - 1) and F.is_zero(x[1])


@contract("fp2.set_zero", lambda nm: nm.ty == FP2E and nm.method == "set_zero", cases_of(one2()), props=("C07",))
def _(ex, nm, a):
    p, x, h = view2(ex, a[0])
    DR(a[0]).set(elt2(ex, h, (ZERO, ZERO)))
    return UNIT


@contract("fp2.set_one", lambda nm: nm.ty == FP2E and nm.method == "set_one", cases_of(one2()), props=("C07",))
def _(ex, nm, a):
    p, x, h = view2(ex, a[0])
    DR(a[0]).set(elt2(ex, h, (ONE, ZERO)))
    return UNIT


@contract("fp2.clone", lambda nm: nm.ty == FP2E and nm.method == "clone", cases_of(one2()), props=("C07",))
def _(ex, nm, a):
    p, x, h = view2(ex, a[0])
    return elt2(ex, h, x)


@contract("fp2.field_clone", lambda nm: nm.ty == FP2 and nm.method == "clone", cases_of(field2(lambda ex: [])),
          props=("C09",))
def _(ex, nm, a):
    return D(a[0])


@contract("fp2.field_eq", lambda nm: nm.ty == FP2 and nm.trait == "PartialEq" and nm.method == "eq",
          cases_of([("any two fields", lambda ex: (mk_fp2(ex, sym_prime(ex, "p", **Q)),
                                                   mk_fp2(ex, sym_prime(ex, "q", **Q))))]), props=("C09",))
def _(ex, nm, a):
    return same(ex, base_p(ex, a[0]), base_p(ex, a[1]))


@contract("fp2.eq", lambda nm: nm.ty == FP2E and nm.trait == "PartialEq" and nm.method == "eq" and nm.targ == FP2E,
          cases_of([("same", two2()[0][1]), ("different fields", two2()[1][1])]), props=("C07", "C09"))
def _(ex, nm, a):
    p, x, h = view2(ex, a[0])
    q, y, _ = view2(ex, a[1])
    if not same(ex, p, q):
        return False
    F = ex.cx.field(p)
    return F.is_zero(x[0] - y[0]) and F.is_zero(x[1] - y[1])


# ------------------------------------------------------------------ conversions
@contract("fp2.size_bytes", fp2fn("Field", "size_bytes"), cases_of(field2(lambda ex: [])), props=("C06",))
def _(ex, nm, a):
    return Int(size_of(ex, base_p(ex, a[0])) * 2, "usize")


@contract("fp2.from_int", lambda nm: nm.ty == FP2 and nm.trait == "FromFactory" and nm.targ in INT,
          lambda nm: cases_of(field2(int_input(nm.targ)))(nm), props=("C05",))
def _(ex, nm, a):
    return elt2(ex, a[0], (ex.cx.image(D(a[1]).p, base_p(ex, a[0])), ZERO))


def str2_cases():
    out = []
    forms = [None] + [(pre, neg) for pre in PREFIX for neg in (False, True)]

    def mk(f, g):
        def b(ex):
            s = []
            for k, q in enumerate((f, g)):
                if q is not None:
                    s += numeral(ex, q[0], q[1], "vw"[k])[0].s
                if k == 0:
                    s.append(("lit", ","))
            t = []
            for x in s:
                if t and x[0] == "lit" and t[-1][0] == "lit":
                    t[-1] = ("lit", t[-1][1] + x[1])
                else:
                    t.append(x)
            return mk_fp2(ex, sym_prime(ex, **Q)), ref(Str(t))
        return b
    for i, f in enumerate(forms):
        for j, g in enumerate(forms):
            out.append((f"numerals {f},{g}", mk(f, g)))
    return out


def split_comma(s):
    a, b, seen = [], [], False
    for x in s.s:
        if not seen and x[0] == "lit" and "," in x[1]:
            l, r = x[1].split(",", 1)
            a.append(("lit", l))
            b.append(("lit", r))
            seen = True
        else:
            (b if seen else a).append(x)
    return Str(a), Str(b), seen


@contract("fp2.from_str", lambda nm: nm.ty == FP2 and nm.trait == "FromFactory" and nm.targ == "str",
          cases_of(str2_cases()), props=("C05",))
def _(ex, nm, a):
    l, r, seen = split_comma(D(a[1]))
    if not seen:
        raise Unsupported("no comma")
    p = base_p(ex, a[0])
    v, w = numeral_value(ex, l), numeral_value(ex, r)
    if v is None or w is None:
        raise Unsupported("not a well-formed numeral")
    return elt2(ex, a[0], (ex.cx.image(v, p), ex.cx.image(w, p)))


def bytes2_cases(kind):
    def right(ex):
        p = sym_prime(ex, **Q)
        n = size_of(ex, p)
        v, w = P(ex.cx.fresh("v")), P(ex.cx.fresh("w"))
        ex.cx.int_assume("le", -v)
        ex.cx.int_assume("le", -w)
        return mk_fp2(ex, p), ref(Rope([(kind, v, n), (kind, w, n)]))

    def wrong(ex):
        p = sym_prime(ex, **Q)
        n, w = any_bytes(ex)
        ex.cx.int_assume("eq", n - size_of(ex, p) * 2, False)
        return mk_fp2(ex, p), ref(Rope([(kind, w, n)]))
    return [("two component encodings", right), ("wrong length", wrong)]


@contract("fp2.from_bytes", lambda nm: nm.ty == FP2 and nm.trait == "Deserialize" and nm.method in
          ("from_bytes_be", "from_bytes_le"), lambda nm: cases_of(bytes2_cases(nm.method[-2:]))(nm), props=("C06",))
def _(ex, nm, a):
    cx = ex.cx
    r = D(a[1]).copy()
    p = base_p(ex, a[0])
    n = size_of(ex, p)
    if not cx.eq(r.length(), n * 2):
        return ex.err(lambda ex, out, path: None)
    l, h = r.split(cx, n)
    f = (lambda s: s.value_be(cx)) if nm.method.endswith("be") else (lambda s: s.value_le(cx))
    return ex.ok(elt2(ex, a[0], (cx.image(f(l), p), cx.image(f(h), p))))


@contract("fp2.to_bytes", lambda nm: nm.ty == FP2E and nm.trait == "Serialize" and nm.method in
          ("to_bytes_be", "to_bytes_le"), cases_of(one2()), props=("C06",))
def _(ex, nm, a):
    p, x, h = view2(ex, a[0])
    n = size_of(ex, p)
    k = nm.method[-2:]
    return Rope([(k, ex.cx.lift(p, x[0]), n), (k, ex.cx.lift(p, x[1]), n)])


# ------------------------------------------------------------------ sign, selection, squares, roots
@contract("fp2.sgn0", lambda nm: nm.ty == FP2E and nm.method == "sgn0", cases_of(one2()), props=("C04",))
def _(ex, nm, a):
    p, x, h = view2(ex, a[0])
    y = x[1] if ex.cx.field(p).is_zero(x[0]) else x[0]
    return Int(-1 if odd_rep(ex, p, y) else 1, "i32")


@contract("fp2.cmov", lambda nm: nm.ty == FP2E and nm.method == "cmov", cases_of(
    [(f"selector {b}", (lambda b: lambda ex: tuple(two2()[0][1](ex)) + (b,))(b)) for b in (False, True)]),
    props=("C04",))
def _(ex, nm, a):
    p, x, h = view2(ex, D(a[1] if D(a[2]) else a[0]))
    return elt2(ex, h, x)


@contract("fp2.is_square", lambda nm: nm.ty == FP2E and nm.method == "is_square", cases_of(one2(True)),
          props=("C08",))
def _(ex, nm, a):
    # a nonzero element of GF(p^2) is a square iff its norm is a square in GF(p)
    p, x, h = view2(ex, a[0])
    F = ex.cx.field(p)
    if is_zero2(F, x):
        return True
    nonzero2(F, x)
    return F.is_square(norm(F, x))


def sqrt2_check(ex, nm, sa, args, out, pan):
    if pan is not None:
        raise ProofFailure("does not panic", pan.msg)
    p, x, h = view2(ex, sa[0])
    F = ex.cx.field(p)
    q, r, _ = view2(ex, out, "the root")
    compare(ex, Big(q), Big(p), "modulus of the root")
    if witness(ex, F, x) is not None:
        y = mul2(F, r, r)
        for i in range(2):
            if not F.is_zero(y[i] - x[i]):
                raise ProofFailure("the square of the root is the input", f"root {r} of {x}")
    par = ex.field(D(args[0]), "f").f[0].cell[0]
    check_cells(ex, par, ex.field(D(args[0]), "f"), "quadraticfield::Fp2::calc_sqrt_precmp")


@contract("fp2.sqrt", lambda nm: nm.ty == FP2E and nm.method == "sqrt", cases_of(
    [("squares", squares), ("any element", one2()[0][1])]), check=sqrt2_check, props=("C08",))
def _(ex, nm, a):
    raise Unsupported("square root in GF(p^2) as a callee")
