"""Contracts of the printed forms (C31): every `Display` implementation of the library."""
from .. import engine
from ..engine import contract, lemma
from ..lib import *
from ..ext import D
from ..text import formatter, put, lit, numeral, join
from ..published import CURVES
from .fp import one_elt, pass_args
from .fp2 import one2, view2, mk_fp2
from .scalar import SC, view_sc, sc_of
from .curve import CV, PT, COORDS, Curve, sym_curve, view_curve
from .instances import GETTER

HEAD = {"weierstrass": "Weierstrass Curve y^2=x^3+ax+b", "montgomery": "Montgomery Curve by^2=x^3+ax^2+x",
        "edwards": "Twisted Edwards Curve ax^2+y^2=1+dx^2y^2"}
SHOWN = {"weierstrass": ("a", "b"), "montgomery": ("a", "b"), "edwards": ("a", "d")}


def displayed(tys):
    return lambda nm: nm.trait == "Display" and nm.method == "fmt" and nm.ty in tys


def cases(f):
    """one value and a formatter with default options"""
    def g(nm):
        return [(l, (lambda b: lambda ex: [ref(b(ex)), ref(formatter())])(b)) for l, b in f(nm)]
    return g


def write(ex, a, *parts):
    put(a[1], join(*[lit(x) if isinstance(x, str) else x for x in parts]))
    return ex.ok(UNIT)


def number(ex, pk, r):
    """the decimal numeral of the canonical representative"""
    return numeral(ex.cx.lift(pk, r))


@contract("print.element", displayed((FPE,)), cases(lambda nm: [(l, (lambda b: lambda ex: b(ex)[0])(b))
                                                              for l, b in one_elt()]), props=("C31",))
def _(ex, nm, a):
    p, r, h = view(ex, a[0])
    return write(ex, a, number(ex, p, r))


@contract("print.field", displayed((FP,)),
          cases(lambda nm: [("any field", lambda ex: mk_fp(ex, sym_prime(ex, lo=2, odd=False)))]), props=("C31",))
def _(ex, nm, a):
    return write(ex, a, "GF(", numeral(fp_p(ex, a[0])), ")")


@contract("print.element2", displayed((FP2E,)), cases(lambda nm: [(l, (lambda b: lambda ex: b(ex)[0])(b))
                                                               for l, b in one2()]), props=("C31",))
def _(ex, nm, a):
    p, r, h = view2(ex, a[0])
    return write(ex, a, number(ex, p, r[0]), "+i*", number(ex, p, r[1]))


@contract("print.field2", displayed((FP2,)),
          cases(lambda nm: [("any field", lambda ex: mk_fp2(ex, sym_prime(ex, lo=3, m4=3)))]), props=("C31",))
def _(ex, nm, a):
    return write(ex, a, "GF(", numeral(fp_p(ex, fp2_base(ex, a[0]))), ")^2")


@contract("print.scalar", displayed(SC), cases(lambda nm: [(l, (lambda b: lambda ex: b(ex)[0])(b))
                                                           for l, b in sc_of(nm.ty)]), props=("C31",))
def _(ex, nm, a):
    r, k = view_sc(ex, a[0])
    return write(ex, a, number(ex, r, k))


def any_point(nm):
    m = PT[nm.ty]

    def g(ex):
        C = sym_curve(ex, m)
        return C.point(tuple(P(ex.cx.ffresh(n)) for n in COORDS[m]))
    return [("any coordinates", g)]


@contract("print.point", displayed(tuple(PT)), cases(any_point), props=("C31",))
def _(ex, nm, a):
    c = ex.field(D(a[0]), "c")
    parts = []
    for n in COORDS[PT[nm.ty]]:
        p, r, h = view(ex, ex.field(D(c), n))
        parts += [f"\n{n}: ", number(ex, p, r)]
    return write(ex, a, *parts)


def any_curve(nm):
    return [("any curve", lambda ex: sym_curve(ex, CV[nm.ty]).adt())]


@contract("print.curve", displayed(tuple(CV)), cases(any_curve), props=("C31",))
def _(ex, nm, a):
    C = view_curve(ex, a[0])
    parts = [HEAD[C.m]]
    for n in SHOWN[C.m]:
        parts += [f"\n{n}: ", number(ex, C.pk, C.par[n])]
    return write(ex, a, *parts)


def static(ex, name):
    key = [k for k in ex.prog.statics if k.rsplit("::", 1)[1] == name]
    if len(key) != 1:
        raise Unsupported(f"static {name}")
    return ex.const(ex.prog.statics[key[0]])


def named(ty):
    return [n for n in CURVES if GETTER[CURVES[n]["m"]] == ty]


@lemma("print.instances", [(n, (lambda n: lambda ex: (n,))(n)) for n in CURVES], props=("C31",))
def _(ex, name):
    """a named instance prints its own name, so that two instances never print the same"""
    c = static(ex, name)
    f = f"<{D(c).ty} as std::fmt::Display>::fmt"
    if f not in ex.prog.by_name:
        raise Unsupported(f"no function {f}")
    s = formatter()
    ok = ex.call_named(f, [ref(c), ref(s)])
    compare(ex, ok, ex.ok(UNIT))
    compare(ex, s.f[0], lit(CURVES[name]["name"]), "the printed name")


def function(ex, ident):
    """the functions of the current source under a contract"""
    fs = [n for c in engine.CONTRACTS if c.ident == ident for n in engine.targets(ex.prog, c)]
    if not fs:
        raise Unsupported(f"no function under {ident}")
    return fs


@lemma("print.read-back", one_elt(), props=("C31",))
def _(ex, x):
    """reading the printed form of an element gives the element"""
    p, r, h = view(ex, x)
    s = formatter()
    show, = function(ex, "print.element")
    compare(ex, ex.call_named(show, [ref(x), ref(s)]), ex.ok(UNIT))
    for read in function(ex, "fp.from_str"):
        compare(ex, ex.call_named(read, pass_args(ex, read, (h, ref(s.f[0])))), x, "the element read back")
