"""Named instances are the published curves (C29)."""
from ..engine import contract, lemma
from ..lib import *
from ..ext import D
from ..published import CURVES, facts
from .curve import *

GETTER = {"weierstrass": "instances::weier::WeCurveID", "montgomery": "instances::mont::MtCurveID",
          "edwards": "instances::edw::EdCurveID"}


def instance(ex, name):
    """the curve that the named instance's `get` returns, by executing it"""
    key = [k for k in ex.prog.statics if k.rsplit("::", 1)[1] == name]
    if len(key) != 1:
        raise Unsupported(f"static {name}")
    c = ex.const(ex.prog.statics[key[0]])
    get = f"<{D(c).ty} as instances::GetCurve>::get"
    if get not in ex.prog.by_name:
        raise Unsupported(get)
    return ex.call_named(get, [ref(c)])


def published(ex, name):
    c = CURVES[name]
    pk = P(c["p"])
    F = ex.cx.field(pk)
    from .curve import PARAMS
    return Curve(ex, c["m"], pk, {n: F.reduce(P(c[n])) for n in PARAMS[c["m"]]}, r=P(c["r"]), h=P(c["h"]),
                 g=(F.reduce(P(c["gx"])), F.reduce(P(c["gy"]))))


def one(n):
    return lambda ex: (n,)


@lemma("instances.published", [(n, one(n)) for n in CURVES], props=("C29",))
def _(ex, name):
    """`get` returns the published curve, and the published numbers have the stated properties"""
    got, want = view_curve(ex, instance(ex, name)), published(ex, name)
    if got.m != want.m:
        raise ProofFailure("the published model")
    for what, u, v in ([("field order", got.pk, want.pk), ("group order", got.r, want.r), ("cofactor", got.h, want.h)]):
        if not same(ex, u, v):
            raise ProofFailure(f"the published {what}", f"{name}: {u}")
    F = want.F
    for n in want.par:
        if not F.is_zero(got.par[n] - want.par[n]):
            raise ProofFailure(f"the published coefficient {n}", f"{name}: {got.par[n]}")
    for n, u, v in zip("xy", got.g, want.g):
        if not F.is_zero(u - v):
            raise ProofFailure(f"the published generator ({n})", f"{name}: {u}")
    for what, ok in facts(CURVES[name]):
        if not ok:
            raise Unsupported(f"table: {what}")
