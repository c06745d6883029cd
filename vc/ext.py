"""Models of the external functions the crate calls (num-bigint, num-traits, atomic_refcell, std).

These are the trusted contracts of dependencies; every one used is reported in the evidence."""
from .poly import Poly, P, ZERO, ONE, atom
from .ctx import Infeasible, Unsupported, ProofFailure
from .values import *
from .bytes_ import Rope, Str, SubRope
from .names import parse, strip_ref
from .exec import INT


def D(v):
    """dereference references, boxes and Arcs are left alone"""
    while True:
        if isinstance(v, Ref):
            v = v.get()
        elif isinstance(v, Box):
            v = v.cell[0]
        elif isinstance(v, RefMut):
            v = v.rc.cell[0]
        else:
            return v


def DR(v):
    """the innermost reference"""
    if not isinstance(v, Ref):
        if isinstance(v, Box):
            return DR(Ref(v.cell, 0))
        return ref(v)
    w = v.get()
    while isinstance(w, (Ref, Box)):
        v = w if isinstance(w, Ref) else Ref(w.cell, 0)
        w = v.get()
    return v


BIGINT, BIGUINT = "num_bigint::BigInt", "num_bigint::BigUint"
SIGN = "num_bigint::Sign"
TABLE = {}


def ext(*methods):
    def deco(f):
        for m in methods:
            TABLE.setdefault(m, []).append(f)
        return f
    return deco


class No(Exception):
    """this model does not apply"""


def natives(name):
    nm = parse(name)
    hs = TABLE.get(nm.method)
    if not hs:
        return None

    def run(ex, args, fd):
        for h in hs:
            try:
                return h(ex, nm, args, fd)
            except No:
                continue
        raise Unsupported(f"external {name} on {[type(D(a)).__name__ for a in args]}")
    return run


def num(v):
    v = D(v)
    if isinstance(v, (Big, Int)):
        return v
    raise No()


def uns(nm, *vs):
    """result is unsigned?"""
    for v in vs:
        if isinstance(v, Big):
            return v.uns
    return False


def big_or_no(*vs):
    vs = [num(v) for v in vs]
    if not any(isinstance(v, Big) for v in vs):
        raise No()
    return vs


def mk(ex, p, u):
    if u and not ex.cx.int_valid("le", -p):
        if not ex.cx.le(0, p):
            raise Panic("BigUint underflow")
    return Big(p, u)


@ext("add", "sub", "mul")
def _arith(ex, nm, a, fd):
    x, y = big_or_no(a[0], a[1])
    p = x.p + y.p if nm.method == "add" else x.p - y.p if nm.method == "sub" else x.p * y.p
    return mk(ex, p, uns(nm, x, y))


@ext("add_assign", "sub_assign", "mul_assign")
def _arith_assign(ex, nm, a, fd):
    x, y = big_or_no(a[0], a[1])
    m = nm.method[:3]
    p = x.p + y.p if m == "add" else x.p - y.p if m == "sub" else x.p * y.p
    DR(a[0]).set(mk(ex, p, x.uns))
    return UNIT


@ext("add", "sub", "mul", "div", "rem", "shl", "shr", "bitand", "bitor", "bitxor")
def _parith(ex, nm, a, fd):
    """operators on machine integers through references"""
    x, y = num(a[0]), num(a[1])
    if isinstance(x, Big) or isinstance(y, Big):
        raise No()
    op = {"add": "Add", "sub": "Sub", "mul": "Mul", "div": "Div", "rem": "Rem", "shl": "Shl", "shr": "Shr",
          "bitand": "BitAnd", "bitor": "BitOr", "bitxor": "BitXor"}[nm.method]
    if op in ("Add", "Sub", "Mul"):
        r = ex.checked(op, x, y)
        if r.f[1]:
            raise Panic("overflow")
        return r.f[0]
    if op in ("Div", "Rem") and ex.cx.eq(y.p, 0):
        raise Panic("division by zero")
    return ex.binop(op, x, y)


@ext("bitand_assign", "bitor_assign", "bitxor_assign", "add_assign", "sub_assign", "mul_assign", "shl_assign",
     "shr_assign")
def _passign(ex, nm, a, fd):
    x, y = num(a[0]), num(a[1])
    if isinstance(x, Big) or isinstance(y, Big):
        raise No()
    op = {"bitand": "BitAnd", "bitor": "BitOr", "bitxor": "BitXor", "add": "Add", "sub": "Sub", "mul": "Mul",
          "shl": "Shl", "shr": "Shr"}[nm.method[:-7]]
    if op in ("Add", "Sub", "Mul"):
        r = ex.checked(op, x, y)
        if r.f[1]:
            raise Panic("overflow")
        DR(a[0]).set(r.f[0])
    else:
        DR(a[0]).set(ex.binop(op, x, y))
    return UNIT


@ext("neg")
def _neg(ex, nm, a, fd):
    x, = big_or_no(a[0])
    return Big(-x.p, False)


@ext("rem", "div", "div_floor", "mod_floor", "div_rem", "div_mod_floor")
def _divrem(ex, nm, a, fd):
    x, y = big_or_no(a[0], a[1])
    cx = ex.cx
    m = nm.method
    if cx.eq(y.p, 0):
        raise Panic("division by zero")
    if not cx.le(1, y.p):
        raise Unsupported("division by a negative integer")
    u = uns(nm, x, y)
    ty = x.ty if isinstance(x, Int) else None
    floor = cx.mod if y.p.is_const() and y.p.cval() < 1 << 20 else cx.mod_floor
    if m == "mod_floor":
        return Big(floor(x.p, y.p), u)
    if m == "div_floor":
        return Big(cx.div(x.p, y.p), u)
    neg = not cx.le(0, x.p)
    p = -x.p if neg else x.p
    if m == "div_mod_floor":
        return Tup([Big(cx.div(x.p, y.p), u), Big(floor(x.p, y.p), u)])
    r = cx.mod_floor(p, y.p) if not y.p.is_const() else cx.mod(p, y.p)
    if m == "rem":
        return Big(-r if neg else r, u)
    q = cx.div(p, y.p)
    if m == "div":
        return Big(-q if neg else q, u)
    return Tup([Big(-q if neg else q, u), Big(-r if neg else r, u)])


@ext("is_even", "is_odd")
def _parity(ex, nm, a, fd):
    x, = big_or_no(a[0])
    r = ex.cx.mod(x.p, 2)
    odd = ex.cx.eq(r, 1)
    return odd == (nm.method == "is_odd")


@ext("shr", "shl")
def _shift(ex, nm, a, fd):
    x = num(a[0])
    if not isinstance(x, Big):
        raise No()
    s = num(a[1])
    cx = ex.cx
    if nm.method == "shl":
        return Big(x.p * cx.pow2(s.p), x.uns)
    if not cx.le(0, x.p):
        raise Unsupported("right shift of a negative integer")
    return Big(cx.div(x.p, cx.pow2(s.p)), x.uns)


@ext("bitand")
def _bitand(ex, nm, a, fd):
    x, y = big_or_no(a[0], a[1])
    if y.p.is_const() or x.p.is_const():
        r = ex.bitop("BitAnd", Int(x.p, "u64"), Int(y.p, "u64"))
        return Big(r.p, x.uns if isinstance(x, Big) else y.uns)
    raise Unsupported("bit operation on big integers")


@ext("bit")
def _bit(ex, nm, a, fd):
    x, = big_or_no(a[0])
    cx = ex.cx
    if not cx.le(0, x.p):
        raise Unsupported("bit of a negative integer")
    return cx.eq(cx.mod(cx.div(x.p, cx.pow2(num(a[1]).p)), 2), 1)


@ext("modpow")
def _modpow(ex, nm, a, fd):
    x, e, m = (D(v) for v in a)
    cx = ex.cx
    if not cx.le(0, e.p):
        raise Panic("negative exponent")
    if cx.eq(m.p, 0):
        raise Panic("zero modulus")
    if not cx.le(1, m.p):
        raise Unsupported("negative modulus")
    if m.p.is_const() and m.p.cval() == 1:
        return Big(0, x.uns)
    F = cx.field(m.p)
    r = F.pow(cx.image(x.p, m.p), e.p)
    return Big(cx.lift(m.p, r), x.uns)


def egcd(ex, x, m):
    """gcd(x, m) and Bezout's coefficients, m prime: every solution of a x + b m = gcd is covered"""
    cx = ex.cx
    if not cx.le(2, m):
        raise Unsupported("Bezout's coefficients for a small modulus")
    F = cx.field(m)
    img = cx.image(x, m)
    t = P(cx.fresh("bezout"))
    if F.is_zero(img):
        return m, t, 1 - t * cx.div(x, m)
    a = cx.lift(m, F.inv(img)) + t * m
    return ONE, a, cx.div(1 - a * x, m)


@ext("extended_gcd", "gcd")
def _egcd(ex, nm, a, fd):
    x, m = big_or_no(a[0], a[1])
    g, b, c = egcd(ex, x.p, m.p)
    u = uns(nm, x, m)
    if nm.method == "gcd":
        return Big(g, u)
    if u:
        raise Unsupported("Bezout's coefficients of unsigned integers")
    return Adt("num_integer::ExtendedGcd", 0, [Big(g, u), Big(b, u), Big(c, u)])


@ext("modinv")
def _modinv(ex, nm, a, fd):
    x, m = (D(v) for v in a)
    cx = ex.cx
    if cx.eq(m.p, 0):
        raise Panic("zero modulus")
    if not cx.le(2, m.p):
        raise Unsupported("inverse for a small modulus")
    F = cx.field(m.p)
    img = cx.image(x.p, m.p)
    if F.is_zero(img):
        return ex.none()
    return ex.some(Big(cx.lift(m.p, F.inv(img)), x.uns))


@ext("is_multiple_of", "divides")
def _multiple(ex, nm, a, fd):
    x, y = big_or_no(a[0], a[1])
    cx = ex.cx
    if cx.eq(y.p, 0):
        return cx.big_eq(x.p, ZERO)
    if not cx.le(1, y.p):
        raise Unsupported("divisibility by a negative integer")
    small = y.p.is_const() and y.p.cval() < 1 << 20
    return cx.eq((cx.mod if small else cx.mod_floor)(x.p, y.p), 0)


@ext("pow")
def _pow(ex, nm, a, fd):
    x, = big_or_no(a[0])
    e = num(a[1]).p
    if not e.is_const():
        raise Unsupported("symbolic power")
    return Big(x.p ** e.cval(), x.uns)


@ext("bits")
def _bits(ex, nm, a, fd):
    x, = big_or_no(a[0])
    cx = ex.cx
    if cx.big_eq(x.p, ZERO):
        return Int(0, "u64")
    p = x.p if x.uns or cx.le(0, x.p) else -x.p
    return Int(cx.bits(p), "u64")


@ext("magnitude", "abs", "into_parts")
def _magnitude(ex, nm, a, fd):
    x, = big_or_no(a[0])
    neg = not ex.cx.le(0, x.p)
    v = Big(-x.p if neg else x.p, nm.method != "abs")
    if nm.method == "into_parts":
        return Tup([sign_of(ex, x.p), v])
    return Ref([v], 0) if nm.method == "magnitude" else v


@ext("sign")
def _sign(ex, nm, a, fd):
    x, = big_or_no(a[0])
    return sign_of(ex, x.p)


def sign_of(ex, p):
    cx = ex.cx
    if cx.big_eq(p, ZERO):
        return Adt("num_bigint::Sign", 1, [])
    return Adt("num_bigint::Sign", 2 if cx.le(0, p) else 0, [])


@ext("from_bytes_be", "from_bytes_le")
def _from_bytes(ex, nm, a, fd):
    if nm.ty not in (BIGINT, BIGUINT):
        raise No()
    r = D(a[-1])
    if not isinstance(r, Rope):
        raise No()
    v = r.copy().value_be(ex.cx) if nm.method.endswith("be") else r.copy().value_le(ex.cx)
    if nm.ty == BIGINT:
        s = D(a[0])
        if s.var == 1:
            v = ZERO
        elif s.var == 0:
            v = -v
    return Big(v, nm.ty == BIGUINT)


@ext("to_bytes_be", "to_bytes_le")
def _to_bytes(ex, nm, a, fd):
    x = D(a[0])
    if not isinstance(x, Big):
        raise No()
    cx = ex.cx
    if cx.big_eq(x.p, ZERO):
        r = Rope.be(ZERO, ONE)
        p = ZERO
    else:
        p = x.p if x.uns or cx.le(0, x.p) else -x.p
        n = cx.nbytes(p)
        r = Rope.be(p, n) if nm.method.endswith("be") else Rope.le(p, n)
    if not x.uns:
        return Tup([sign_of(ex, x.p), r])
    return r


@ext("to_u32_digits")
def _digits(ex, nm, a, fd):
    x, = big_or_no(a[0])
    cx = ex.cx
    zero = cx.big_eq(x.p, ZERO)
    p = ZERO if zero else x.p if x.uns or cx.le(0, x.p) else -x.p
    v = Arr([]) if zero else digits(ex, p)
    if nm.ty == BIGUINT or x.uns:
        return v
    return Tup([sign_of(ex, x.p), v])


def digits(ex, p):
    """Vec<u32> of the base-2^32 digits of p > 0, least significant first"""
    cx = ex.cx
    if p.is_const():
        c, out = p.cval(), []
        while c:
            out.append(Int(c & 0xffffffff, "u32"))
            c >>= 32
        return Arr(out)
    n = cx.ndigits(p)

    def index(ex, j):
        return Int(cx.mod(cx.div(p, cx.pow2(j * 32)), 1 << 32), "u32")
    return Ghost("digits", value=p, len=n, index=index, elem="u32")


@ext("parse_bytes")
def _parse_bytes(ex, nm, a, fd):
    s = D(a[0])
    radix = num(a[1]).p.cval()
    r = parse_digits(ex, s, radix, nm.ty == BIGINT)
    if r is None:
        return ex.none()
    return ex.some(Big(r, nm.ty == BIGUINT))


@ext("from_str")
def _from_str(ex, nm, a, fd):
    if nm.ty not in (BIGINT, BIGUINT):
        raise No()
    r = parse_digits(ex, D(a[0]), 10, nm.ty == BIGINT)
    if r is None:
        return ex.err(Opaque("ParseBigIntError"))
    return ex.ok(Big(r, nm.ty == BIGUINT))


@ext("from_str_radix")
def _from_str_radix(ex, nm, a, fd):
    r = parse_digits(ex, D(a[0]), num(a[1]).p.cval(), nm.ty == BIGINT)
    if r is None:
        return ex.err(Opaque("ParseBigIntError"))
    return ex.ok(Big(r, nm.ty == BIGUINT))


def parse_digits(ex, s, radix, signed):
    """num-bigint's parser on a well understood subset"""
    if isinstance(s, Rope):
        raise Unsupported("parsing raw bytes")
    t = s.text()
    if t is not None:
        u = t
        neg = False
        if signed and u.startswith("-"):
            neg = True
            u = u[1:]
            if u.startswith("+"):
                return None
        if u.startswith("+"):
            u = u[1:]
            if u.startswith("+"):
                u = "?" + u
        if u.startswith("_") or not u:
            return None
        u = u.replace("_", "")
        v = 0
        for c in u:
            try:
                d = int(c, 36)
            except ValueError:
                return None
            if d >= radix:
                return None
            v = v * radix + d
        return P(-v if neg else v)
    segs = s.s
    neg = False
    if segs and segs[0] == ("lit", "-") and signed:
        neg = True
        segs = segs[1:]
    if len(segs) == 1 and segs[0][0] == "dig":
        _, rx, v, n = segs[0]
        if ex.cx.eq(n, 0):
            return None
        if rx == radix:
            return -v if neg else v
        if rx > radix and ex.cx.choose("digits out of range"):
            return None
        w = P(atom("reparse", v, n, rx, radix))
        ex.cx.int_assume("le", -w)
        return -w if neg else w
    if any(x[0] == "lit" and any(not _okdigit(c, radix) for c in x[1].replace("_", "")) for x in segs):
        return None
    raise Unsupported("parsing a mixed string")


def _okdigit(c, radix):
    try:
        return int(c, 36) < radix
    except ValueError:
        return False


@ext("to_biguint")
def _to_biguint(ex, nm, a, fd):
    x = num(a[0])
    if ex.cx.le(0, x.p):
        return ex.some(Big(x.p, True))
    return ex.none()


@ext("to_bigint")
def _to_bigint(ex, nm, a, fd):
    x = num(a[0])
    return ex.some(Big(x.p, False))


@ext("from", "into", "try_from")
def _from(ex, nm, a, fd):
    if nm.method == "from" and nm.ty in (BIGINT, BIGUINT):
        x = num(a[0])
        return Big(x.p, nm.ty == BIGUINT)
    if nm.method == "into" and nm.targ in (BIGINT, BIGUINT):
        x = num(a[0])
        return Big(x.p, nm.targ == BIGUINT)
    if nm.method in ("from", "into"):
        t = nm.ty if nm.method == "from" else nm.targ
        v = D(a[0])
        if t in INT and isinstance(v, (Int, bool)):
            return Int(v.p if isinstance(v, Int) else int(v), t)
        if t == "std::vec::Vec<u8>" and isinstance(v, Rope):
            return v.copy()
        if nm.ty == nm.targ:
            return a[0]
    raise No()


@ext("to_u8", "to_u16", "to_u32", "to_u64", "to_usize", "to_i8", "to_i16", "to_i32", "to_i64", "to_isize")
def _to_prim(ex, nm, a, fd):
    x = num(a[0])
    ty = nm.method[3:]
    if ex.in_range(x.p, ty):
        return ex.some(Int(x.p, ty))
    return ex.none()


@ext("zero", "one")
def _zero(ex, nm, a, fd):
    c = 0 if nm.method == "zero" else 1
    if nm.ty in (BIGINT, BIGUINT):
        return Big(c, nm.ty == BIGUINT)
    if nm.ty in INT:
        return Int(c, nm.ty)
    raise No()


@ext("is_zero", "is_one")
def _is_zero(ex, nm, a, fd):
    x = num(a[0])
    return ex.cx.big_eq(x.p, P(0 if nm.method == "is_zero" else 1))


@ext("is_positive", "is_negative")
def _is_pos(ex, nm, a, fd):
    x = num(a[0])
    return ex.cx.le(1, x.p) if nm.method == "is_positive" else ex.cx.le(x.p, -1)


@ext("set_zero", "set_one")
def _set_zero(ex, nm, a, fd):
    x = num(a[0])
    c = P(0 if nm.method == "set_zero" else 1)
    DR(a[0]).set(Big(c, x.uns) if isinstance(x, Big) else Int(c, x.ty))
    return UNIT


# ------------------------------------------------------------------ comparison and cloning
def equal(ex, x, y):
    """semantic equality of two values (derived or library PartialEq)"""
    x, y = D(x), D(y)
    cx = ex.cx
    if isinstance(x, (Big, Int)) and isinstance(y, (Big, Int)):
        return cx.big_eq(x.p, y.p)
    if isinstance(x, bool) and isinstance(y, bool):
        return x == y
    if isinstance(x, Str) and isinstance(y, Str):
        return x.equal(cx, y)
    if isinstance(x, Rope) and isinstance(y, Rope):
        return x.copy().equal(cx, y.copy())
    if isinstance(x, Tup) and isinstance(y, Tup):
        return all(equal(ex, a, b) for a, b in zip(x.f, y.f))
    if isinstance(x, Arr) and isinstance(y, Arr):
        return len(x.f) == len(y.f) and all(user_eq(ex, a, b) for a, b in zip(x.f, y.f))
    if isinstance(x, Arc) and isinstance(y, Arc):
        if x is y or x.id == y.id:
            # Arc's PartialEq for T: Eq is pointer equality or value equality
            return True
        return user_eq(ex, x.cell[0], y.cell[0])
    if isinstance(x, Adt) and isinstance(y, Adt) and x.var != y.var:
        return False
    if isinstance(x, Adt) and isinstance(y, Adt) and x.ty.startswith("std::"):
        return all(user_eq(ex, a, b) for a, b in zip(x.f, y.f))
    raise No()


def user_eq(ex, a, b):
    """PartialEq::eq as the program defines it"""
    x, y = D(a), D(b)
    if isinstance(x, Adt) and x.ty == SIGN:
        return x.var == y.var
    if isinstance(x, Adt) and not x.ty.startswith("std::"):
        return ex.call_named(f"<{x.ty} as std::cmp::PartialEq>::eq", [ref(x), ref(y)])
    return equal(ex, x, y)


@ext("eq", "ne")
def _eq(ex, nm, a, fd):
    x, y = D(a[0]), D(a[1])
    if isinstance(x, Adt) and not x.ty.startswith("std::"):
        n = f"<{x.ty} as std::cmp::PartialEq>::eq"
        if x.ty == SIGN:
            return (x.var == y.var) == (nm.method == "eq")
        if nm.method == "eq" and nm.raw == n:
            raise No()
        r = ex.call_named(n, [ref(x), ref(y)])
    else:
        r = equal(ex, x, y)
    return r if nm.method == "eq" else not r


@ext("lt", "le", "gt", "ge")
def _cmp(ex, nm, a, fd):
    x, y = num(a[0]), num(a[1])
    cx = ex.cx
    return {"lt": lambda: cx.lt(x.p, y.p), "le": lambda: cx.le(x.p, y.p),
            "gt": lambda: cx.lt(y.p, x.p), "ge": lambda: cx.le(y.p, x.p)}[nm.method]()


@ext("cmp", "partial_cmp")
def _cmp3(ex, nm, a, fd):
    x, y = num(a[0]), num(a[1])
    r = ex.binop("Cmp", Int(x.p, "i128"), Int(y.p, "i128"))
    return r if nm.method == "cmp" else ex.some(r)


@ext("min", "max")
def _min(ex, nm, a, fd):
    x, y = num(a[0]), num(a[1])
    if not isinstance(x, Int):
        raise No()
    le = ex.cx.le(x.p, y.p)
    return x if le == (nm.method == "min") else y


@ext("clone", "to_owned")
def _clone(ex, nm, a, fd):
    v = D(a[0])
    if isinstance(v, Arc):
        return v
    if isinstance(v, (Big, Int, bool, Str)):
        return v
    if isinstance(v, Adt) and v.ty == "std::option::Option<?>" or isinstance(v, Adt) and v.ty.startswith("std::"):
        return Adt(v.ty, v.var, [user_clone(ex, x) for x in v.f])
    if isinstance(v, Rope):
        return v.copy()
    if isinstance(v, Arr):
        return Arr([user_clone(ex, x) for x in v.f])
    if isinstance(v, Tup):
        return Tup([user_clone(ex, x) for x in v.f])
    if isinstance(v, Ghost):
        return v
    if isinstance(v, Adt) and nm.method == "to_owned":      # the blanket ToOwned is Clone
        return user_clone(ex, v)
    raise No()


def user_clone(ex, v):
    if isinstance(v, (Ref, Arc)):
        return v
    if isinstance(v, Adt) and not v.ty.startswith("std::"):
        n = f"<{v.ty} as std::clone::Clone>::clone"
        return ex.call_named(n, [ref(v)])
    return _clone(ex, parse("<T as std::clone::Clone>::clone"), [v], None)


# ------------------------------------------------------------------ cells and pointers
@ext("new")
def _new(ex, nm, a, fd):
    t = nm.ty
    if t.startswith("std::sync::Arc") or t.startswith("std::rc::Rc"):
        return Arc(a[0])
    if t.startswith("std::boxed::Box"):
        return Box(a[0])
    if cell_kind(t) == "once":
        return RefCell(ex.none(), "once")
    if cell_kind(t):
        return RefCell(a[0], cell_kind(t))
    if t.startswith("std::vec::Vec"):
        return Rope() if t == "std::vec::Vec<u8>" else Arr([])
    if t.startswith("std::io::Error"):
        return Opaque("io::Error")
    raise No()


@ext("other")
def _ioerr(ex, nm, a, fd):
    if nm.ty.startswith("std::io::Error"):
        return Opaque("io::Error")
    raise No()


@ext("ptr_eq")
def _ptr_eq(ex, nm, a, fd):
    x, y = D(a[0]), D(a[1])
    if isinstance(x, Arc):
        # sharing is not observable state of the abstract handles: two handles may or may not share
        return x is y or x.id == y.id
    raise No()


@ext("deref", "deref_mut", "as_ref", "as_mut", "borrow", "as_slice", "as_bytes", "as_str", "as_mut_slice")
def _deref(ex, nm, a, fd):
    r = DR(a[0])
    v = r.get()
    if isinstance(v, Arc):
        return Ref(v.cell, 0)
    if isinstance(v, RefMut):
        return Ref(v.rc.cell, 0)
    if isinstance(v, (Arr, Rope, Str, Ghost)):
        return r
    if isinstance(v, Adt) and nm.ty.startswith("std::boxed::Box"):
        return r
    if isinstance(v, Adt) and nm.method in ("as_ref", "as_mut") and v.ty.startswith("std::option::Option"):
        return ex.some(Ref(v.f, 0)) if v.var == 1 else ex.none()
    raise No()


def shared(ex, v):
    """may another thread use this cell at the same time?"""
    return ex.cx.threads and v.fill is not None


def content(ex, v):
    if callable(v.cell[0]):
        v.cell[0] = v.cell[0](ex)
    return v.cell[0]


@ext("borrow_mut", "borrow")
def _borrow_mut(ex, nm, a, fd):
    v = D(a[0])
    if not isinstance(v, RefCell) or v.kind != "dynamic":
        raise No()
    if v.borrowed:
        raise Panic("already borrowed")
    if shared(ex, v) and (nm.method == "borrow_mut" or writes_cells(ex)) and \
            ex.cx.choose("another thread has the cell borrowed"):
        raise Panic("already borrowed by another thread")
    content(ex, v)
    v.touched = True
    if nm.method == "borrow_mut":
        v.borrowed = True
    return RefMut(v)


def writes_cells(ex):
    """does some function of the crate borrow a shared cell exclusively?"""
    return any(t["t"] == "call" and t["f"]["kind"] != "indirect" and t["f"].get("name", "").endswith("borrow_mut")
               for f in ex.prog.by_name.values() for t in (b["t"] for b in f["blocks"]))


@ext("get_or_init", "get", "set")
def _once(ex, nm, a, fd):
    v = D(a[0])
    if not isinstance(v, RefCell) or v.kind != "once":
        raise No()
    if v.borrowed:
        if nm.method == "get":
            return ex.none()
        raise Panic("re-entrant initialisation by one thread")
    c = content(ex, v)
    if c.var == 0 and shared(ex, v) and ex.cx.choose("another thread initialises the cell first"):
        c = v.cell[0] = v.fill(ex)
    if nm.method == "get":
        return ex.some(Ref(c.f, 0)) if c.var == 1 else c
    if nm.method == "set":
        if c.var == 1:
            return ex.err(a[1])
        v.cell[0] = ex.some(a[1])
        return ex.ok(UNIT)
    if c.var == 0:
        v.borrowed = True
        x = ex.call_value(a[1], [])
        v.borrowed = False
        c = v.cell[0] = ex.some(x)
    return Ref(c.f, 0)


@ext("lock", "write", "read")
def _lock(ex, nm, a, fd):
    v = D(a[0])
    if not isinstance(v, RefCell) or v.kind != "lock":
        raise No()
    if v.borrowed:
        raise Panic("lock taken twice by the same thread")
    c = content(ex, v)
    if _isopt(c) and c.var == 0 and shared(ex, v) and ex.cx.choose("another thread filled the cell"):
        v.cell[0] = v.fill(ex)
    v.borrowed = True
    return ex.ok(RefMut(v))


@ext("get_or_insert")
def _get_or_insert(ex, nm, a, fd):
    r = DR(a[0])
    v = r.get()
    if not (isinstance(v, Adt) and v.ty.startswith("std::option::Option")):
        raise No()
    if v.var == 0:
        v = Adt(v.ty, 1, [a[1]])
        r.set(v)
    return Ref(v.f, 0)


@ext("get_or_insert_with")
def _get_or_insert_with(ex, nm, a, fd):
    r = DR(a[0])
    v = r.get()
    if not (isinstance(v, Adt) and v.ty.startswith("std::option::Option")):
        raise No()
    if v.var == 0:
        v = Adt(v.ty, 1, [ex.call_value(a[1], [])])
        r.set(v)
    return Ref(v.f, 0)


@ext("new_uninit")
def _new_uninit(ex, nm, a, fd):
    return Box(Opaque("maybeuninit", [UNINIT]))


@ext("box_assume_init_into_vec_unsafe")
def _assume_init(ex, nm, a, fd):
    v = a[0].cell[0]
    if isinstance(v, Opaque):
        v = v.data[0]
    while isinstance(v, Tup):
        v = v.f[0] if v.f[0] is not UNINIT else v.f[1]
    while isinstance(v, Adt) and len(v.f) == 1:
        v = v.f[0]
    if isinstance(v, Tup):
        v = v.f[0]
    if not isinstance(v, (Arr, Rope)):
        raise Unsupported("vec! macro")
    return v


@ext("into_vec", "into_boxed_slice")
def _into_vec(ex, nm, a, fd):
    v = D(a[0])
    if isinstance(v, (Arr, Rope)):
        return v
    raise No()


# ------------------------------------------------------------------ options and results
def _isopt(v):
    return isinstance(v, Adt) and (v.ty.startswith("std::option::Option") or v.ty.startswith("std::result::Result"))


@ext("unwrap", "expect", "unwrap_or", "unwrap_or_else", "unwrap_or_default", "is_some", "is_none", "is_ok", "is_err",
     "ok", "map", "ok_or", "ok_or_else", "map_err", "and_then", "cloned", "copied", "unwrap_err", "take", "filter")
def _opt(ex, nm, a, fd):
    v = D(a[0])
    if not _isopt(v):
        raise No()
    o = v.ty.startswith("std::option")
    good = (v.var == 1) if o else (v.var == 0)
    m = nm.method
    if m in ("unwrap", "expect"):
        if not good:
            raise Panic("unwrap")
        return v.f[0]
    if m == "unwrap_or":
        return v.f[0] if good else a[1]
    if m == "unwrap_or_else":
        return v.f[0] if good else ex.call_value(a[1], [] if o else [v.f[0]])
    if m in ("is_some", "is_ok"):
        return good
    if m in ("is_none", "is_err"):
        return not good
    if m == "ok" and not o:
        return ex.some(v.f[0]) if good else ex.none()
    if m == "map":
        return Adt(v.ty, v.var, [ex.call_value(a[1], [v.f[0]])]) if good else v
    if m == "and_then":
        return ex.call_value(a[1], [v.f[0]]) if good else v
    if m == "ok_or":
        return ex.ok(v.f[0]) if good else ex.err(a[1])
    if m == "ok_or_else":
        return ex.ok(v.f[0]) if good else ex.err(ex.call_value(a[1], []))
    if m == "map_err":
        return v if good else ex.err(ex.call_value(a[1], [v.f[0]]))
    if m in ("cloned", "copied") and o:
        return ex.some(user_clone(ex, D(v.f[0]))) if good else v
    if m == "take" and o:
        DR(a[0]).set(ex.none())
        return v
    raise No()


@ext("branch", "from_residual", "from_output")
def _try(ex, nm, a, fd):
    v = D(a[0])
    if nm.method == "branch" and _isopt(v):
        o = v.ty.startswith("std::option")
        good = (v.var == 1) if o else (v.var == 0)
        if good:
            return Adt("std::ops::ControlFlow<?>", 0, [v.f[0]])
        return Adt("std::ops::ControlFlow<?>", 1, [Adt(v.ty, v.var, list(v.f))])
    if nm.method == "from_residual" and _isopt(v):
        return v
    raise No()


@ext("panic_display", "panic_fmt", "panic_str", "panic", "panic_explicit", "unimplemented_default_msg",
     "todo_default_msg", "unwrap_failed", "expect_failed", "assert_failed", "begin_panic", "panic_bounds_check",
     "unreachable_display", "panic_nounwind", "unwrap_failed_inner", "unreachable_default_msg",
     "slice_index_fail", "slice_end_index_len_fail", "slice_start_index_len_fail")
def _panic(ex, nm, a, fd):
    if nm.ty == "core::panicking" or nm.ty.startswith("std::") or nm.ty.startswith("core::"):
        raise Panic(nm.method)
    raise No()


@ext("precondition_check")
def _precheck(ex, nm, a, fd):
    return UNIT


# ------------------------------------------------------------------ vectors, slices, strings
def seq(v):
    v = D(v)
    if isinstance(v, (Arr, Rope, Str)) or (isinstance(v, Ghost) and "len" in v.d):
        return v
    raise No()


def bounds(ex, r, n):
    """(lo, hi) of a range value"""
    r = D(r)
    if not isinstance(r, Adt):
        raise No()
    t = r.ty.split("<")[0].split("::")[-1]
    if t == "Range":
        return r.f[0].p, r.f[1].p
    if t == "RangeFrom":
        return r.f[0].p, n
    if t == "RangeTo":
        return ZERO, r.f[0].p
    if t == "RangeFull":
        return ZERO, n
    if t == "RangeInclusive":
        return r.f[0].p, r.f[1].p + 1
    if t == "RangeToInclusive":
        return ZERO, r.f[0].p + 1
    raise No()


@ext("index", "index_mut")
def _index(ex, nm, a, fd):
    s = seq(a[0])
    cx = ex.cx
    i = D(a[1])
    if isinstance(i, Int):
        n = ex.length(s).p
        if not cx.lt(i.p, n):
            raise Panic("index out of bounds")
        if isinstance(s, Arr):
            if not i.p.is_const():
                raise Unsupported("symbolic index")
            return Ref(s.f, i.p.cval())
        if isinstance(s, Rope):
            return ByteRef(s, i.p, cx)
        if isinstance(s, Ghost):
            return ref(s.d["index"](ex, i.p))
        raise No()
    n = ex.length(s).p
    lo, hi = bounds(ex, i, n)
    if not (cx.le(lo, hi) and cx.le(hi, n)):
        raise Panic("slice index out of bounds")
    if isinstance(s, Str):
        return ref(s.slice(cx, lo, None if hi == n else hi))
    if isinstance(s, Rope):
        if nm.method == "index_mut":
            return ref(SubRope(s, lo, hi - lo, cx))
        return ref(s.copy().slice(cx, lo, hi))
    if isinstance(s, Arr) and lo.is_const() and hi.is_const() and nm.method == "index":
        return ref(Arr(s.f[lo.cval():hi.cval()]))
    raise Unsupported("slice")


@ext("get", "first", "last", "get_mut", "last_mut", "first_mut")
def _get(ex, nm, a, fd):
    s = seq(a[0])
    n = ex.length(s).p
    if nm.method.startswith("get"):
        i = D(a[1])
        if not isinstance(i, Int):
            raise No()
        i = i.p
    else:
        i = ZERO if nm.method.startswith("first") else n - 1
    if not (ex.cx.le(0, i) and ex.cx.lt(i, n)):
        return ex.none()
    return ex.some(_index(ex, parse("index"), [a[0], Int(i, "usize")], None))


@ext("len", "is_empty")
def _len(ex, nm, a, fd):
    s = seq(a[0])
    n = ex.length(s)
    return n if nm.method == "len" else ex.cx.eq(n.p, 0)


@ext("append", "extend", "extend_from_slice")
def _append(ex, nm, a, fd):
    s, o = seq(a[0]), D(a[1])
    if isinstance(s, Rope) and isinstance(o, Ghost) and o.kind in ("iter", "ropeiter"):
        o = collect(ex, o, True)
    if isinstance(s, Rope) and isinstance(o, Rope):
        s.append(o.copy())
        if nm.method == "append":
            o.s = []
        return UNIT
    if isinstance(s, Rope) and isinstance(o, Arr) and not o.f:
        return UNIT
    if isinstance(s, Arr) and isinstance(o, Arr):
        s.f.extend(user_clone(ex, x) if nm.method == "extend_from_slice" else x for x in o.f)
        if nm.method == "append":
            o.f.clear()
        return UNIT
    if isinstance(s, Arr) and isinstance(o, Ghost):
        s.f.extend(collect(ex, o, False).f)
        return UNIT
    raise No()


@ext("push", "pop", "insert", "truncate", "clear", "reserve")
def _push(ex, nm, a, fd):
    s = seq(a[0])
    m = nm.method
    if m == "reserve":
        return UNIT
    if isinstance(s, Arr):
        if m == "push":
            if isinstance(a[1], Int) and a[1].ty == "u8" and not s.f:
                DR(a[0]).set(Rope([("be", a[1].p, ONE)]))
            else:
                s.f.append(a[1])
            return UNIT
        if m == "pop":
            return ex.some(s.f.pop()) if s.f else ex.none()
        if m == "clear":
            s.f.clear()
            return UNIT
        if m == "insert" and D(a[1]).p.is_const():
            i = D(a[1]).p.cval()
            if i > len(s.f):
                raise Panic("insert")
            s.f.insert(i, a[2])
            return UNIT
    if isinstance(s, Rope):
        if m == "push":
            s.s = s.s + [("be", a[1].p, ONE)]
            return UNIT
        if m == "clear":
            s.s = []
            return UNIT
        if m == "insert":
            i = D(a[1]).p
            if not ex.cx.le(i, s.length()):
                raise Panic("insert")
            x, y = s.split(ex.cx, i)
            s.s = x.s + [("be", a[2].p, ONE)] + y.s
            return UNIT
        if m == "truncate":
            n = D(a[1]).p
            if ex.cx.lt(n, s.length()):
                s.s = s.split(ex.cx, n)[0].s
            return UNIT
        if m == "pop":
            n = s.length()
            if ex.cx.eq(n, 0):
                return ex.none()
            x, y = s.split(ex.cx, n - 1)
            s.s = x.s
            return ex.some(y.index(ex.cx, 0))
    raise No()


@ext("resize")
def _resize(ex, nm, a, fd):
    s = seq(a[0])
    n, v = D(a[1]).p, D(a[2])
    if not isinstance(s, Rope):
        raise No()
    cx = ex.cx
    old = s.length()
    if cx.le(n, old):
        s.s = s.split(cx, n)[0].s
    else:
        if not v.p.is_zero():
            raise Unsupported("resize with a nonzero byte")
        s.s = s.s + [("be", ZERO, n - old)]
    return UNIT


@ext("from_elem")
def _from_elem(ex, nm, a, fd):
    v, n = D(a[0]), D(a[1]).p
    if isinstance(v, Int) and v.ty == "u8" and v.p.is_zero():
        return Rope([("be", ZERO, n)])
    if n.is_const():
        k = n.cval()
        if isinstance(v, Int) and v.ty == "u8":
            return Rope([("be", v.p, ONE)] * k)
        return Arr([user_clone(ex, v) for _ in range(k)])
    raise Unsupported("vec! of symbolic length")


@ext("with_capacity")
def _with_capacity(ex, nm, a, fd):
    if nm.ty.startswith("std::vec::Vec"):
        return Rope() if nm.ty == "std::vec::Vec<u8>" else Arr([])
    raise No()


@ext("to_vec")
def _to_vec(ex, nm, a, fd):
    s = seq(a[0])
    if isinstance(s, Rope):
        return s.copy()
    if isinstance(s, Arr):
        return Arr([user_clone(ex, x) for x in s.f])
    raise No()


@ext("concat")
def _concat(ex, nm, a, fd):
    s = seq(a[0])
    out = Rope()
    for x in s.f:
        x = D(x)
        if not isinstance(x, Rope):
            raise No()
        out.append(x.copy())
    return out


@ext("reverse")
def _reverse(ex, nm, a, fd):
    s = seq(a[0])
    if isinstance(s, Rope):
        s.reverse()
    elif isinstance(s, Arr):
        s.f.reverse()
    else:
        raise No()
    return UNIT


@ext("copy_from_slice", "clone_from_slice")
def _copy_from(ex, nm, a, fd):
    s, o = seq(a[0]), seq(a[1])
    if not ex.cx.eq(ex.length(s).p, ex.length(o).p):
        raise Panic("copy_from_slice: lengths differ")
    if isinstance(s, Rope) and isinstance(o, Rope):
        s.s = list(o.copy().s)
        return UNIT
    if isinstance(s, Arr) and isinstance(o, Arr):
        s.f[:] = [user_clone(ex, x) for x in o.f]
        return UNIT
    raise No()


@ext("split_at", "split_at_mut", "split_off", "split_first", "split_last")
def _split_at(ex, nm, a, fd):
    s = seq(a[0])
    if not isinstance(s, Rope):
        raise No()
    cx, n = ex.cx, s.length()
    if nm.method in ("split_first", "split_last"):
        if cx.eq(n, 0):
            return ex.none()
        first = nm.method == "split_first"
        x, y = s.copy().split(cx, ONE if first else n - 1)
        one, rest = (x, y) if first else (y, x)
        return ex.some(Tup([ref(one.index(cx, 0)), ref(rest)]))
    i = D(a[1]).p
    if not cx.le(i, n):
        raise Panic("split_at out of bounds")
    if nm.method == "split_at_mut":
        return Tup([ref(SubRope(s, ZERO, i, cx)), ref(SubRope(s, i, n - i, cx))])
    x, y = s.copy().split(cx, i)
    if nm.method == "split_off":
        s.s = x.s
        return y
    return Tup([ref(x), ref(y)])


@ext("fill")
def _fill(ex, nm, a, fd):
    s, v = seq(a[0]), D(a[1])
    if isinstance(s, Rope) and isinstance(v, Int) and v.p.is_zero():
        s.s = [("be", ZERO, s.length())]
        return UNIT
    if isinstance(s, Arr):
        s.f[:] = [user_clone(ex, v) for _ in s.f]
        return UNIT
    raise No()


@ext("starts_with", "strip_prefix")
def _starts_with(ex, nm, a, fd):
    s = seq(a[0])
    c = D(a[1])
    if not isinstance(s, Str):
        raise No()
    if isinstance(c, Int):
        t = chr(c.p.cval())
    elif isinstance(c, Str) and c.text() is not None:
        t = c.text()
    else:
        raise No()
    r, unknown = True, False
    rest = s
    for ch in t:
        x = rest.starts_with(ch)
        if x is None:
            unknown = True
        elif not x:
            r = False
            break
        if rest.s and rest.s[0][0] != "lit" and not ex.cx.lt(ONE, rest.s[0][3]):
            # a single digit is left of this group
            rest = Str(rest.s[1:])
        else:
            rest = rest.slice(ex.cx, 1, None)
    if r and unknown:
        raise Unsupported("prefix of symbolic digits")
    if nm.method == "starts_with":
        return r
    return ex.some(ref(rest)) if r else ex.none()


@ext("splitn", "split")
def _splitn(ex, nm, a, fd):
    s = seq(a[0])
    if not isinstance(s, Str):
        raise No()
    if nm.method == "splitn":
        n, c = D(a[1]).p.cval(), chr(D(a[2]).p.cval())
    else:
        n, c = 1 << 30, chr(D(a[1]).p.cval())
    parts, cur = [], []
    for x in s.s:
        if x[0] == "lit":
            t = x[1]
            while c in t and len(parts) + 1 < n:
                i = t.index(c)
                cur.append(("lit", t[:i]))
                parts.append(Str(cur))
                cur = []
                t = t[i + 1:]
            cur.append(("lit", t))
        else:
            cur.append(x)
    parts.append(Str(cur))
    return iter_list([ref(p) for p in parts])


# ------------------------------------------------------------------ iterators
def iter_list(xs):
    xs = list(xs)

    def nxt(ex):
        return ex.some(xs.pop(0)) if xs else ex.none()

    def nxt_back(ex):
        return ex.some(xs.pop()) if xs else ex.none()
    return Ghost("iter", next=nxt, next_back=nxt_back, size=lambda: len(xs))


def elements(ex, s):
    """list of references to the elements of a sequence of known length"""
    if isinstance(s, Arr):
        return [Ref(s.f, i) for i in range(len(s.f))]
    if isinstance(s, Rope):
        n = s.length()
        if n.is_const():
            return [ByteRef(s, P(i), ex.cx) for i in range(n.cval())]
        raise Unsupported("iteration over a byte string of symbolic length")
    if isinstance(s, Ghost) and s.kind == "digits":
        return None
    raise No()


@ext("iter", "into_iter", "iter_mut", "drain")
def _iter(ex, nm, a, fd):
    r = DR(a[0])
    s = r.get()
    if isinstance(s, Ghost) and s.kind == "iter":
        return s
    if isinstance(s, Adt) and s.ty.startswith("std::ops::Range"):
        return s
    if isinstance(s, Adt) and not s.ty.startswith("std::"):
        if nm.method == "into_iter":
            return a[0]
        raise No()
    if isinstance(s, Ghost) and s.kind == "digits":
        return Ghost("symiter", seq=s, rev=False)
    if isinstance(s, Ghost) and s.kind in ("symiter", "bititer", "ropeiter"):
        return s
    if isinstance(s, Rope) and not s.length().is_const():
        if nm.method == "iter_mut":
            raise Unsupported("iteration over a byte string of symbolic length")
        r = Ghost("ropeiter", rope=s.copy())
        if nm.method == "drain":
            if len(a) < 2 or not D(a[1]).ty.endswith("RangeFull"):
                raise Unsupported("drain")
            s.s = []
        return r
    xs = elements(ex, seq(s))
    owned = nm.method == "into_iter" and not isinstance(a[0], Ref)
    if owned or nm.method == "drain":
        return iter_list([x.get() for x in xs])
    return iter_list(xs)


def as_iter(ex, v):
    """(next, next_back) of an iterator place"""
    r = DR(v)
    s = r.get()
    if isinstance(s, Ghost) and s.kind == "iter":
        return s.d["next"], s.d["next_back"]
    if isinstance(s, Ghost) and s.kind in ("symiter", "bititer") and "next" in s.d:
        return s.d["next"], None
    if isinstance(s, Ghost) and s.kind in ("symiter", "bititer", "ropeiter"):
        raise Unsupported("iteration over a symbolic sequence outside a loop with an invariant")
    if isinstance(s, Adt) and s.ty.startswith("std::ops::Range<"):
        def nxt(ex):
            a, b = s.f[0], s.f[1]
            if not ex.cx.lt(a.p, b.p):
                return ex.none()
            s.f[0] = Int(a.p + 1, a.ty)
            return ex.some(a)

        def nxt_back(ex):
            a, b = s.f[0], s.f[1]
            if not ex.cx.lt(a.p, b.p):
                return ex.none()
            s.f[1] = Int(b.p - 1, b.ty)
            return ex.some(s.f[1])
        return nxt, nxt_back
    if isinstance(s, Adt) and s.ty.startswith("std::ops::RangeInclusive<"):
        def nxt(ex):
            a, b = s.f[0], s.f[1]
            if not ex.cx.le(a.p, b.p):
                return ex.none()
            s.f[0] = Int(a.p + 1, a.ty)
            return ex.some(a)

        def nxt_back(ex):
            a, b = s.f[0], s.f[1]
            if not ex.cx.le(a.p, b.p):
                return ex.none()
            s.f[1] = Int(b.p - 1, b.ty)
            return ex.some(b)
        return nxt, nxt_back
    if isinstance(s, Adt) and not s.ty.startswith("std::"):
        n = f"<{s.ty} as std::iter::Iterator>::next"
        return (lambda ex: ex.call_named(n, [r])), None
    raise No()


@ext("new")
def _range_incl_new(ex, nm, a, fd):
    if nm.ty.startswith("std::ops::RangeInclusive"):
        return Adt(nm.ty, 0, [a[0], a[1], False])
    raise No()


@ext("next", "next_back")
def _next(ex, nm, a, fd):
    s = D(a[0])
    if isinstance(s, Adt) and not s.ty.startswith("std::ops::Range"):
        raise No()
    nx, nb = as_iter(ex, a[0])
    return nx(ex) if nm.method == "next" else nb(ex)


def opt_map(ex, o, f):
    return ex.some(f(o.f[0])) if o.var == 1 else o


@ext("once")
def _once(ex, nm, a, fd):
    if not nm.raw.startswith("std::iter::"):
        raise No()
    v = D(a[0])
    if isinstance(v, Int) and v.ty == "u8":
        return Ghost("ropeiter", rope=Rope([("be", v.p, ONE)]))
    return iter_list([a[0]])


@ext("repeat", "repeat_n")
def _repeat(ex, nm, a, fd):
    v = D(a[0])
    if not (isinstance(v, Int) and v.ty == "u8" and v.p.is_zero()):
        raise No()
    if nm.method == "repeat_n":
        return Ghost("ropeiter", rope=Rope([("be", ZERO, D(a[1]).p)]))
    return Ghost("repeat")


@ext("rev", "map", "enumerate", "zip", "skip", "take", "cloned", "copied", "chain", "step_by", "by_ref", "peekable")
def _adaptor(ex, nm, a, fd):
    s = D(a[0])
    if _isopt(s):
        raise No()
    m = nm.method
    if isinstance(s, Ghost) and s.kind == "symiter" and m == "rev":
        return Ghost("symiter", seq=s.d["seq"], rev=not s.d["rev"])
    if isinstance(s, Ghost) and s.kind == "repeat" and m == "take":
        return Ghost("ropeiter", rope=Rope([("be", ZERO, D(a[1]).p)]))
    if isinstance(s, Ghost) and s.kind == "ropeiter" and m in ("rev", "copied", "cloned", "chain", "take", "skip"):
        r = s.d["rope"].copy()
        if m == "rev":
            r.reverse()
        elif m == "chain":
            o = _iter(ex, parse("<T as I>::into_iter"), [a[1]], None)
            o = o.d["rope"] if isinstance(o, Ghost) and o.kind == "ropeiter" else collect(ex, o, True)
            r.append(o.copy())
        elif m in ("take", "skip"):
            n, k = r.length(), D(a[1]).p
            k = k if ex.cx.le(k, n) else n
            r = r.split(ex.cx, k)[m == "skip"]
        return Ghost("ropeiter", rope=r)
    src = a[0] if isinstance(a[0], Ref) else ref(a[0])
    nx, nb = as_iter(ex, src)
    if m == "rev":
        rng = D(src)
        return Ghost("iter", next=nb, next_back=nx, range=rng if isinstance(rng, Adt) else None)
    if m == "by_ref":
        return a[0]
    if m in ("cloned", "copied"):
        f = lambda o: opt_map(ex, o, lambda x: user_clone(ex, D(x)))
        return Ghost("iter", next=lambda ex: f(nx(ex)), next_back=(lambda ex: f(nb(ex))) if nb else None)
    if m == "map":
        f = lambda o: opt_map(ex, o, lambda x: ex.call_value(a[1], [x]))
        return Ghost("iter", next=lambda ex: f(nx(ex)), next_back=(lambda ex: f(nb(ex))) if nb else None)
    if m == "enumerate":
        xs = drain(ex, nx)
        return iter_list([Tup([Int(i, "usize"), x]) for i, x in enumerate(xs)])
    if m == "zip":
        other = a[1]
        o = D(other)
        if not (isinstance(o, Ghost) and o.kind == "iter") and not (isinstance(o, Adt) and o.ty.startswith("std::ops::Range")):
            other = _iter(ex, parse("<T as I>::into_iter"), [other], None)
        ny, _ = as_iter(ex, other if isinstance(other, Ref) else ref(other))
        xs, ys = drain(ex, nx), drain(ex, ny)
        return iter_list([Tup([x, y]) for x, y in zip(xs, ys)])
    if m in ("skip", "take"):
        n = D(a[1]).p
        if not n.is_const():
            raise Unsupported("symbolic skip")
        xs = drain(ex, nx)
        return iter_list(xs[n.cval():] if m == "skip" else xs[:n.cval()])
    if m == "chain":
        other = _iter(ex, parse("<T as I>::into_iter"), [a[1]], None)
        ny, _ = as_iter(ex, ref(other))
        return iter_list(drain(ex, nx) + drain(ex, ny))
    raise No()


def drain(ex, nx):
    out = []
    while True:
        o = nx(ex)
        if o.var == 0:
            return out
        out.append(o.f[0])
        if len(out) > 5000:
            raise Unsupported("unbounded iteration")


def collect(ex, it, bytes_):
    if isinstance(it, Ghost) and it.kind == "ropeiter":
        return it.d["rope"].copy()
    nx, _ = as_iter(ex, ref(it))
    xs = drain(ex, nx)
    if bytes_ or (xs and isinstance(D(xs[0]), Int) and D(xs[0]).ty == "u8"):
        return Rope([("be", D(x).p, ONE) for x in xs])
    return Arr(xs)


@ext("collect", "fold", "for_each", "any", "all", "count", "rfold")
def _consume(ex, nm, a, fd):
    s = D(a[0])
    if _isopt(s):
        raise No()
    m = nm.method
    if isinstance(s, Ghost) and s.kind == "ropeiter" and m in ("collect", "count"):
        if m == "count":
            return Int(s.d["rope"].length(), "usize")
        if "Vec" not in nm.raw.rsplit("collect", 1)[1]:
            raise Unsupported("collect")
        return s.d["rope"].copy()
    nx, nb = as_iter(ex, a[0] if isinstance(a[0], Ref) else ref(a[0]))
    if m == "fold" and ex.fold_rule is not None:
        r = ex.fold_rule(ex, s, a[1], a[2])
        if r is not None:
            return r
    if m == "collect":
        if "Vec" not in nm.raw.rsplit("collect", 1)[1]:
            raise Unsupported("collect")
        return collect(ex, a[0] if not isinstance(a[0], Ref) else s, "Vec<u8>" in nm.raw)
    if m in ("fold", "rfold"):
        acc = a[1]
        for x in drain(ex, nx if m == "fold" else nb):
            acc = ex.call_value(a[2], [acc, x])
        return acc
    if m == "for_each":
        for x in drain(ex, nx):
            ex.call_value(a[1], [x])
        return UNIT
    if m == "count":
        return Int(len(drain(ex, nx)), "usize")
    for x in drain(ex, nx):
        r = ex.call_value(a[1], [x])
        if r != (m == "all"):
            return r
    return m == "all"


# ------------------------------------------------------------------ machine integers
@ext("overflowing_sub", "overflowing_add", "overflowing_mul", "wrapping_sub", "wrapping_add", "wrapping_mul",
     "checked_sub", "checked_add", "checked_mul", "saturating_sub")
def _wrapping(ex, nm, a, fd):
    x, y = num(a[0]), num(a[1])
    if isinstance(x, Big):
        raise No()
    kind, op = nm.method.split("_")
    op = op.capitalize()
    r = ex.checked(op, x, y)
    if kind == "overflowing":
        return r
    if kind == "wrapping":
        return r.f[0]
    if kind == "checked":
        return ex.none() if r.f[1] else ex.some(r.f[0])
    return Int(0, x.ty) if r.f[1] else r.f[0]


@ext("div_ceil")
def _div_ceil(ex, nm, a, fd):
    x, y = num(a[0]), num(a[1])
    if ex.cx.eq(y.p, 0):
        raise Panic("division by zero")
    return Int(ex.cx.div(x.p + y.p - 1, y.p), x.ty)


@ext("backward_unchecked", "forward_unchecked", "backward", "forward")
def _step(ex, nm, a, fd):
    x, y = num(a[0]), num(a[1])
    return Int(x.p - y.p if nm.method.startswith("back") else x.p + y.p, x.ty)


@ext("integer_min")
def _imin(ex, nm, a, fd):
    x, y = num(a[0]), num(a[1])
    return x if ex.cx.le(x.p, y.p) else y


@ext("replace", "swap", "take")
def _mem(ex, nm, a, fd):
    if nm.ty not in ("std::mem", "core::mem"):
        raise No()
    r = DR(a[0])
    old = r.get()
    if nm.method == "replace":
        r.set(a[1])
        return old
    if nm.method == "swap":
        q = DR(a[1])
        r.set(q.get())
        q.set(old)
        return UNIT
    raise No()


@ext("drop")
def _drop(ex, nm, a, fd):
    ex.drop(a[0])
    return UNIT


@ext("call", "call_mut", "call_once")
def _call(ex, nm, a, fd):
    t = a[1]
    return ex.call_value(a[0], t.f if isinstance(t, Tup) else [t])


from . import text      # noqa: E402,F401  (the models of formatting come before the next one)


@ext("from_str", "new_const", "new", "new_v1", "new_v1_formatted", "new_display", "new_debug", "new_lower_hex",
     "from_str_nonconst", "format", "must_use")
def _fmt(ex, nm, a, fd):
    """messages are not part of any contract"""
    if "fmt::" in nm.ty or nm.method == "format":
        return Opaque("fmt")
    raise No()
