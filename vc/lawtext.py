"""The functions `law` (vc/specs/point.py), `eq_affine` and `neg` (vc/specs/curve.py), run on symbols and printed in Lean,
with theorems that they are the law, curve and negation the Lean files are about: what the proofs of C12-C17 compare with
and what Lean proves a group are then the same thing, checked on every run."""


class Sym:
    def __init__(self, s):
        self.s = s

    def __str__(self):
        return self.s


def bin_(op):
    return (lambda a, b: Sym(f"({a} {op} {txt(b)})")), (lambda a, b: Sym(f"({txt(b)} {op} {a})"))


def txt(v):
    if isinstance(v, Sym):
        return v.s
    if type(v) is int:
        return str(v) if v >= 0 else f"(-{-v})"
    raise TypeError(v)


for name, op in (("add", "+"), ("sub", "-"), ("mul", "*")):
    f, r = bin_(op)
    setattr(Sym, f"__{name}__", f)
    setattr(Sym, f"__r{name}__", r)
Sym.__neg__ = lambda a: Sym(f"(-{a})")


class Field:
    """every test of zero forks; `path` holds the answers"""

    def __init__(self, path):
        self.path, self.asked = path, []

    def inv(self, x):
        return Sym(f"{txt(x)}⁻¹") if isinstance(x, Sym) else Sym(f"({txt(x)} : F)⁻¹")

    def reduce(self, x):
        return x

    def is_zero(self, x):
        i = len(self.asked)
        self.asked.append(txt(x))
        return self.path[i] if i < len(self.path) else True


def curve(model, path=()):
    from .specs.curve import Curve
    C = Curve.__new__(Curve)
    C.m, C.F = model, Field(path)
    C.par = {"edwards": {"a": Sym("a"), "d": Sym("d")}, "weierstrass": {"a": Sym("a"), "b": Sym("b")},
             "montgomery": {"a": Sym("a"), "b": 1, "s": Sym("s")}}[model]
    return C


def tree(model, p, q, path=()):
    from .specs import point
    C = curve(model, path)
    r = point.law(None, C, p, q)
    n = len(path)
    if len(C.F.asked) > n:
        return f"if {C.F.asked[n]} = 0 then {tree(model, p, q, path + (True,))} else {tree(model, p, q, path + (False,))}"
    if model == "edwards":
        return f"({txt(r[0])}, {txt(r[1])})"
    if r == point.O:
        return "none"
    return f"some ({txt(r[0])}, {txt(r[1])})"


def theorems(lean):
    """Lean text to append to the file `lean`"""
    from .specs import point
    p, q = (Sym("x1"), Sym("y1")), (Sym("x2"), Sym("y2"))
    def pair(t):
        return f"({txt(t[0])}, {txt(t[1])})"
    if lean == "Edwards":
        C = curve("edwards")
        return f"""
theorem RedoxEcc.Edwards.same_law {{F : Type*}} [Field F] (a d x1 y1 x2 y2 : F) :
    RedoxEcc.Edwards.law a d (x1, y1) (x2, y2) = {tree("edwards", p, q)} ∧
    (RedoxEcc.Edwards.On a d (x1, y1) ↔ {txt(C.eq_affine(*p))} = 0) ∧
    RedoxEcc.Edwards.law a d {pair(p)} {pair(C.neg(p))} = RedoxEcc.Edwards.law a d (x1, y1) (-x1, y1) := by
  refine ⟨?_, ?_, ?_⟩
  · first
    | rfl
    | (simp only [RedoxEcc.Edwards.law, Prod.mk.injEq]; constructor <;> ring_nf)
  · simp only [RedoxEcc.Edwards.On]
    constructor <;> intro h <;> linear_combination h
  · rfl
#print axioms RedoxEcc.Edwards.same_law
"""
    if lean != "Weierstrass":
        return ""
    out = ""
    for model, a2, a4, a6 in (("weierstrass", "0", "a", "b"), ("montgomery", "a", "1", "0")):
        par = "a b" if model == "weierstrass" else "a"
        C = curve(model)
        goals = [f"(∃ P : RedoxEcc.Pt ({a2} : F) {a4} {a6}, RedoxEcc.co P = some (x1, y1)) ↔ {txt(C.eq_affine(*p))} = 0",
                 f"∀ h, RedoxEcc.co (RedoxEcc.neg (RedoxEcc.Pt.aff x1 y1 h : RedoxEcc.Pt ({a2} : F) {a4} {a6})) = some {pair(C.neg(p))}"]
        for u, v in ((p, q), (point.O, q), (p, point.O), (point.O, point.O)):
            def opt(t):
                return "none" if t == point.O else f"(some {pair(t)})"
            r = tree(model, u, v)
            r = r if r != point.O else "none"
            r = r if isinstance(r, str) else f"some {pair(r)}"
            goals.append(f"RedoxEcc.law ({a2} : F) {a4} {opt(u)} {opt(v)} = {r}")
        conj = " ∧\n    ".join(f"({g})" for g in goals)
        out += f"""
theorem RedoxEcc.same_law_{model} {{F : Type*}} [Field F] [DecidableEq F] ({par} x1 y1 x2 y2 : F) :
    {conj} := by
  refine ⟨⟨?_, fun h => ⟨RedoxEcc.Pt.aff x1 y1 (by linear_combination h), rfl⟩⟩, fun h => rfl, ?_, rfl, rfl, rfl⟩
  · rintro ⟨P, h⟩
    cases P with
    | O => simp [RedoxEcc.co] at h
    | aff x y k =>
      simp only [RedoxEcc.co, Option.some.injEq, Prod.mk.injEq] at h
      obtain ⟨rfl, rfl⟩ := h
      linear_combination k
  · simp only [RedoxEcc.law]
    split_ifs <;> first | rfl | (simp only [Option.some.injEq, Prod.mk.injEq]; constructor <;> ring_nf)
#print axioms RedoxEcc.same_law_{model}
"""
    return out
