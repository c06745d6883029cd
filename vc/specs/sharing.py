"""C30: field handles shared between threads.

Thread-modular verification: every contract of the two field modules is proved again with the rely condition
that, at every access to a cell reachable from a shared handle, another thread may hold a run-time checked
borrow of it, may have taken its lock, or may have initialised it with what the library computes for the field
(the guarantee: check_cells after every function).  On top of that, the square root does not depend on the
schedule, and the compiler's trait solver establishes Send and Sync for the public field types."""
from .. import engine
from ..engine import lemma
from ..lib import *
from ..ext import D
from .fp import one_elt
from .fp2 import one2, view2, elt2, mk_fp2

for c in engine.CONTRACTS:
    if c.ident.startswith(("fp.", "fp2.")):
        c.props = tuple(c.props) + ("C30",)


def auto(ty):
    def g(ex):
        return ty,
    return g


@lemma("sharing.auto-traits", [(t, auto(t)) for t in (FP, FPE, FP2, FP2E)], props=("C30",))
def _(ex, ty):
    if ex.prog.unsafe_impls:
        raise Unsupported(f"unsafe implementations {ex.prog.unsafe_impls}")
    a = ex.prog.auto.get(ty)
    if a is None:
        raise Unsupported(f"no type {ty}")
    for t in ("Send", "Sync"):
        if not a.get(t):
            raise ProofFailure(f"{ty} is {t}", "the trait solver does not establish it")


def empty_cells(par):
    for v in par.f:
        if isinstance(v, RefCell):
            v.cell[0], v.fill = Adt("std::option::Option<?>", 0, []), None


def sqrt_in(ex, ty, x):
    f = ex.prog.by_name.get(f"<{ty} as field::Sqrt>::sqrt")
    if f is None:
        raise Unsupported("sqrt")
    return ex.run(f, [ref(x)])


def quiet(ex, ty, x):
    """the same square root with nobody else around, on a new handle"""
    t, ex.cx.threads = ex.cx.threads, False
    try:
        return sqrt_in(ex, ty, x)
    finally:
        ex.cx.threads = t


@lemma("sharing.sqrt", [("p = 3 mod 4", one_elt(lo=3, m4=3)[0][1]), ("p = 5 mod 8", one_elt(lo=3, m8=5)[0][1])],
       props=("C30",))
def _(ex, x):
    p, r, h = view(ex, x)
    h0 = mk_fp(ex, p)
    empty_cells(fp_params(ex, h0))
    alone = quiet(ex, FPE, elt(ex, h0, r))
    ex.cx.threads = True
    try:
        got = sqrt_in(ex, FPE, x)
    except Panic as e:
        raise ProofFailure("a square root never panics whatever other threads do with the field handle", e.msg)
    compare(ex, Big(ex.cx.lift(p, view(ex, got)[1])), Big(ex.cx.lift(p, view(ex, alone)[1])),
            "the root whatever other threads do")


@lemma("sharing.sqrt2", [("any element", one2()[0][1])], props=("C30",))
def _(ex, x):
    p, r, h = view2(ex, x)
    h0 = mk_fp2(ex, p)
    par = h0.f[0].cell[0]
    empty_cells(par)
    empty_cells(fp_params(ex, fp2_base(ex, h0)))
    alone = quiet(ex, FP2E, elt2(ex, h0, r))
    ex.cx.threads = True
    try:
        got = sqrt_in(ex, FP2E, x)
    except Panic as e:
        raise ProofFailure("a square root never panics whatever other threads do with the field handle", e.msg)
    for a, b in zip(view2(ex, got)[1], view2(ex, alone)[1]):
        compare(ex, Big(ex.cx.lift(p, a)), Big(ex.cx.lift(p, b)), "the root whatever other threads do")
