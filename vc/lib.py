"""Vocabulary of the contracts: views of the crate's data structures as mathematical objects."""
from .poly import Poly, P, ZERO, ONE, atom
from .ctx import Infeasible, Unsupported, ProofFailure
from .values import *
from .bytes_ import Rope, Str
from .ext import D, DR
from .names import parse

FP, FPE = "primefield::Fp", "primefield::FpElt"
FP2, FP2E = "quadraticfield::Fp2", "quadraticfield::Fp2Elt"
MODELS = ("weierstrass", "montgomery", "edwards")


# ------------------------------------------------------------------ prime fields
def cell_of(ex, ty, calc):
    """a cell of the given type; one that does not hold the (optional) result of calc has unknown content"""
    kind = cell_kind(ty)
    inner = ty.split("<", 1)[1][:-1]
    f = ex.prog.by_name.get(calc)
    want = f["locals"][0] if f is not None and f["args"] == 1 else None
    if want is not None and inner == (want if kind == "once" else f"std::option::Option<{want}>"):
        return RefCell(None, kind)

    def unknown(ex):
        raise Unsupported(f"content of a cell of type {ty}")
    return RefCell(unknown, kind)


def cached_params(ex, ty, vals, new, calc):
    """the shared parameters of a field handle: `vals` plus one cell, empty or holding what the library computes
    for the field (calc(h)).  Where the structure has other fields its own constructor `new` builds it."""
    fields = dict((n, t) for n, t in ex.prog.types[ty]["variants"][0]["fields"])
    rest = [n for n in fields if n not in vals]
    cells = {n: cell_of(ex, fields[n], calc) for n in rest if cell_kind(fields[n])}
    if set(vals) <= set(fields) and len(cells) == len(rest):
        par = ex.adt(ty, **vals, **cells)
        return par, list(cells.values())
    f = ex.prog.by_name.get(new[0])
    if f is None:
        raise Unsupported(f"fields of {ty}")
    h = ex.run(f, list(new[1]))
    while isinstance(h, Adt) and h.ty != ty:
        h = h.f[0]
        h = h.cell[0] if isinstance(h, Arc) else h
    if not isinstance(h, Adt) or h.ty != ty:
        raise Unsupported(f"fields of {ty}")
    return h, [v for v in h.f if isinstance(v, RefCell)]


def lazy_cells(ex, h, cells, calc, root, what):
    """any reachable content of the cells: empty, or what the first square root puts there"""
    def content(ex):
        f = ex.prog.by_name.get(calc)
        if f is not None and f["args"] == 1:
            return ex.some(ex.run(f, [ref(h)]))
        raise Unsupported(calc)

    def lazy(ex):
        if ex.cx.choose(what):
            return ex.none()
        return content(ex)
    for c in cells:
        c.fill = content
        if c.cell[0] is None or _is_none(c.cell[0]):
            c.cell[0] = lazy


def _is_none(v):
    return isinstance(v, Adt) and v.ty.startswith("std::option::Option") and v.var == 0


def check_cells(ex, par, h, calc):
    """the cells of the shared parameters are released and hold what the library computes for the field"""
    for rc in par.f:
        if not isinstance(rc, RefCell):
            continue
        if rc.borrowed:
            raise ProofFailure("the square-root cache is released", "")
        v = rc.cell[0]
        if callable(v) or _is_none(v):
            continue
        if rc.fill is None:
            raise Unsupported("content of a cell")
        f = ex.prog.by_name.get(calc)
        if f is None or f["args"] != 1:
            raise Unsupported(calc)
        compare(ex, v.f[0], ex.run(f, [ref(h)]), "square-root cache")


def mk_fp(ex, pk):
    """a field handle; its square-root cache is empty or holds what the library computes for p"""
    pk = P(pk)
    par, cells = cached_params(ex, "primefield::Params", {"p": Big(pk)}, ("primefield::Fp::new", [Big(pk, True)]),
                               "primefield::Fp::calc_sqrt_precmp")
    h = ex.adt(FP, **{"0": Arc(par)})
    lazy_cells(ex, h, cells, "primefield::Fp::calc_sqrt_precmp", None, "square-root cache empty")
    return h


def fp_params(ex, h):
    h = D(h)
    if not isinstance(h, Adt) or h.ty != FP:
        raise Unsupported(f"field handle {h!r}")
    a = h.f[0]
    if not isinstance(a, Arc):
        raise Unsupported("field handle")
    return a.cell[0]


def fp_p(ex, h):
    return ex.field(fp_params(ex, h), "p").p


def elt(ex, h, poly):
    pk = fp_p(ex, h)
    return ex.adt(FPE, n=Big(ex.cx.lift(pk, poly)), f=D(h))


def view(ex, v, what="argument"):
    """(modulus, residue, handle) of a canonical element"""
    v = D(v)
    if not isinstance(v, Adt) or v.ty != FPE:
        raise Unsupported(f"field element {v!r}")
    h = ex.field(v, "f")
    pk = fp_p(ex, h)
    r = ex.cx.residue(ex.field(v, "n").p, pk)
    if r is None:
        raise ProofFailure(f"canonical representative of {what}", repr(v))
    return pk, r, h


def res(ex, v):
    return view(ex, v)[1]


def same(ex, p, q):
    return ex.cx.big_eq(p, q)


# ------------------------------------------------------------------ comparison of outcomes
def compare(ex, out, exp, path="result"):
    cx = ex.cx
    out, exp = D(out), D(exp)
    if callable(exp) and not isinstance(exp, (Fn,)):
        exp(ex, out, path)
        return
    if isinstance(exp, (Big, Int)) and isinstance(out, (Big, Int)):
        if out.p == exp.p:
            return
        if not cx.big_eq(out.p, exp.p):
            raise ProofFailure(f"{path} equals the specified value", f"got {out.p}, specified {exp.p}")
        return
    if isinstance(exp, bool) and isinstance(out, bool):
        if exp != out:
            raise ProofFailure(f"{path} is {str(exp).lower()}", f"got {out}")
        return
    if isinstance(exp, Adt) and isinstance(out, Adt):
        if exp.ty.split("<")[0] != out.ty.split("<")[0]:
            raise ProofFailure(f"{path} has the specified type", f"got {out!r}, specified {exp!r}")
        if exp.ty == FP:
            compare(ex, Big(fp_p(ex, out)), Big(fp_p(ex, exp)), path + ".modulus")
            return
        if exp.ty == FP2:
            compare(ex, fp2_base(ex, out), fp2_base(ex, exp), path)
            return
        if exp.var != out.var:
            raise ProofFailure(f"{path} is the specified variant", f"got {out!r}, specified {exp!r}")
        names = None
        try:
            names = ex.prog.fields(exp.ty, exp.var)
        except Unsupported:
            pass
        for i, (a, b) in enumerate(zip(out.f, exp.f)):
            compare(ex, a, b, f"{path}.{names[i] if names else i}")
        return
    if isinstance(exp, Tup) and isinstance(out, Tup):
        for i, (a, b) in enumerate(zip(out.f, exp.f)):
            compare(ex, a, b, f"{path}.{i}")
        return
    if isinstance(exp, Arr) and isinstance(out, Arr):
        if len(exp.f) != len(out.f):
            raise ProofFailure(f"{path} has {len(exp.f)} elements", f"got {len(out.f)}")
        for i, (a, b) in enumerate(zip(out.f, exp.f)):
            compare(ex, a, b, f"{path}[{i}]")
        return
    if isinstance(exp, Rope) and isinstance(out, Rope):
        if not out.copy().equal(cx, exp.copy()):
            raise ProofFailure(f"{path} is the specified byte string", f"got {out!r}, specified {exp!r}")
        return
    if isinstance(exp, Str) and isinstance(out, Str):
        if not out.equal(cx, exp):
            raise ProofFailure(f"{path} is the specified string", f"got {out!r}, specified {exp!r}")
        return
    if isinstance(exp, Opaque) and isinstance(out, Opaque) and exp.what == out.what:
        return
    if isinstance(exp, (RefCell,)) and isinstance(out, RefCell):
        return
    if isinstance(exp, Arc) and isinstance(out, Arc):
        compare(ex, out.cell[0], exp.cell[0], path)
        return
    if isinstance(exp, Ghost) and isinstance(out, Ghost) and exp.kind == out.kind:
        if exp is out:
            return
        c = exp.d.get("compare")
        if c:
            c(ex, out, path)
            return
    raise ProofFailure(f"{path} has the specified form", f"got {out!r}, specified {exp!r}")


def fp2_base(ex, h):
    h = D(h)
    a = h.f[0]
    return ex.field(a.cell[0], "base")


# ------------------------------------------------------------------ symbolic inputs
def sym_prime(ex, name="p", lo=3, odd=True, m4=None, m8=None):
    """an arbitrary prime >= lo"""
    cx = ex.cx
    p = P(cx.fresh(name))
    cx.int_assume("le", P(lo) - p)
    if odd:
        cx.int_assume("eq", P(atom("mod", p, P(2))) - 1)
        cx.field(p).units.add(2)
    if lo > 3:
        cx.field(p).units.add(3)
    if m4 is not None:
        cx.int_assume("eq", P(atom("mod", p, P(4))) - m4)
    if m8 is not None:
        cx.int_assume("eq", P(atom("mod", p, P(8))) - m8)
    return p


def sym_elt(ex, h, name):
    return elt(ex, h, P(ex.cx.ffresh(name)))
