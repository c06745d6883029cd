import Mathlib.AlgebraicGeometry.EllipticCurve.Affine.Point
import Mathlib.Tactic.LinearCombination

/-! The chord-and-tangent law used by vc/specs/point.py (function `law`, with b = 1) is an abelian group. -/

namespace RedoxEcc
open WeierstrassCurve

variable {F : Type*} [Field F] [DecidableEq F]

/-- points of y^2 = x^3 + a2 x^2 + a4 x + a6 with the identity O -/
inductive Pt (a2 a4 a6 : F) : Type _
  | O
  | aff (x y : F) (h : y ^ 2 = x ^ 3 + a2 * x ^ 2 + a4 * x + a6)

/-- the law on optional coordinates (none = O), as `law` computes it -/
def law (a2 a4 : F) : Option (F × F) → Option (F × F) → Option (F × F)
  | none, q => q
  | some p, none => some p
  | some (x1, y1), some (x2, y2) =>
    if x1 - x2 = 0 then
      if y1 + y2 = 0 then none
      else
        let l := (3 * x1 * x1 + 2 * a2 * x1 + a4) * (2 * y1)⁻¹
        let x3 := l * l - a2 - x1 - x2
        some (x3, l * (x1 - x3) - y1)
    else
      let l := (y1 - y2) * (x1 - x2)⁻¹
      let x3 := l * l - a2 - x1 - x2
      some (x3, l * (x1 - x3) - y1)

def co {a2 a4 a6 : F} : Pt a2 a4 a6 → Option (F × F)
  | .O => none
  | .aff x y _ => some (x, y)

def neg {a2 a4 a6 : F} : Pt a2 a4 a6 → Pt a2 a4 a6
  | .O => .O
  | .aff x y h => .aff x (-y) (by rw [neg_sq]; exact h)

/-- the Mathlib curve -/
def W (a2 a4 a6 : F) : WeierstrassCurve.Affine F := ⟨0, a2, 0, a4, a6⟩

def disc (a2 a4 a6 : F) : F :=
  a2 ^ 2 * a4 ^ 2 - 4 * a4 ^ 3 - 4 * a2 ^ 3 * a6 - 27 * a6 ^ 2 + 18 * a2 * a4 * a6

omit [DecidableEq F] in
lemma delta (a2 a4 a6 : F) : (W a2 a4 a6).Δ = 16 * disc a2 a4 a6 := by
  simp only [W, WeierstrassCurve.Δ, WeierstrassCurve.b₂, WeierstrassCurve.b₄, WeierstrassCurve.b₆, WeierstrassCurve.b₈, disc]
  ring

omit [DecidableEq F] in
lemma eqn {a2 a4 a6 x y : F} : (W a2 a4 a6).Equation x y ↔ y ^ 2 = x ^ 3 + a2 * x ^ 2 + a4 * x + a6 := by
  rw [WeierstrassCurve.Affine.equation_iff]; simp [W]

omit [DecidableEq F] in
lemma nons {a2 a4 a6 : F} (h2 : (2 : F) ≠ 0) (hd : disc a2 a4 a6 ≠ 0) {x y : F}
    (h : y ^ 2 = x ^ 3 + a2 * x ^ 2 + a4 * x + a6) : (W a2 a4 a6).Nonsingular x y := by
  have h16 : (W a2 a4 a6).Δ ≠ 0 := by
    rw [delta]
    have : (16 : F) = 2 ^ 4 := by norm_num
    rw [this]
    exact mul_ne_zero (pow_ne_zero _ h2) hd
  exact (WeierstrassCurve.Affine.equation_iff_nonsingular_of_Δ_ne_zero h16).mp (eqn.mpr h)

/-- our points are Mathlib's -/
def e {a2 a4 a6 : F} (h2 : (2 : F) ≠ 0) (hd : disc a2 a4 a6 ≠ 0) : Pt a2 a4 a6 ≃ (W a2 a4 a6).Point where
  toFun
    | .O => .zero
    | .aff x y h => .some x y (nons h2 hd h)
  invFun
    | .zero => .O
    | .some x y h => .aff x y (eqn.mp h.1)
  left_inv := by rintro (_ | _) <;> rfl
  right_inv := by rintro (_ | _) <;> rfl

/-- the sum in Mathlib's group, brought back -/
noncomputable def add {a2 a4 a6 : F} (h2 : (2 : F) ≠ 0) (hd : disc a2 a4 a6 ≠ 0) (p q : Pt a2 a4 a6) : Pt a2 a4 a6 :=
  (e h2 hd).symm (e h2 hd p + e h2 hd q)

theorem co_inj {a2 a4 a6 : F} {p q : Pt a2 a4 a6} (h : co p = co q) : p = q := by
  cases p <;> cases q <;> simp_all [co]

/-- the coordinates of the sum are those of the law -/
theorem add_is_law {a2 a4 a6 : F} (h2 : (2 : F) ≠ 0) (hd : disc a2 a4 a6 ≠ 0) (p q : Pt a2 a4 a6) :
    co (add h2 hd p q) = law a2 a4 (co p) (co q) := by
  rcases p with _ | ⟨x1, y1, k1⟩
  · have : add h2 hd .O q = q := by
      simp only [add]
      have z : e h2 hd (.O : Pt a2 a4 a6) = 0 := rfl
      rw [z, zero_add, Equiv.symm_apply_apply]
    rw [this]; simp [co, law]
  rcases q with _ | ⟨x2, y2, k2⟩
  · have : add h2 hd (.aff x1 y1 k1) .O = .aff x1 y1 k1 := by
      simp only [add]
      have z : e h2 hd (.O : Pt a2 a4 a6) = 0 := rfl
      rw [z, add_zero, Equiv.symm_apply_apply]
    rw [this]; simp [co, law]
  simp only [co, law, add]
  have e1 : e h2 hd (.aff x1 y1 k1) = .some x1 y1 (nons h2 hd k1) := rfl
  have e2 : e h2 hd (.aff x2 y2 k2) = .some x2 y2 (nons h2 hd k2) := rfl
  rw [e1, e2]
  have nY : ∀ x y : F, (W a2 a4 a6).negY x y = -y := by
    intro x y; simp [WeierstrassCurve.Affine.negY, W]
  by_cases hx : x1 - x2 = 0
  · have hx' : x1 = x2 := sub_eq_zero.mp hx
    by_cases hy : y1 + y2 = 0
    · have hy' : y1 = (W a2 a4 a6).negY x2 y2 := by rw [nY]; exact eq_neg_of_add_eq_zero_left hy
      rw [WeierstrassCurve.Affine.Point.add_of_Y_eq hx' hy', if_pos hx, if_pos hy]
      rfl
    · have hy' : y1 ≠ (W a2 a4 a6).negY x2 y2 := by
        rw [nY]; intro h; exact hy (by rw [h]; ring)
      rw [WeierstrassCurve.Affine.Point.add_of_Y_ne hy', if_pos hx, if_neg hy]
      have hs := WeierstrassCurve.Affine.slope_of_Y_ne (W := W a2 a4 a6) hx' hy'
      have hyy : y1 = y2 := by
        have : (y1 - y2) * (y1 + y2) = 0 := by
          rw [hx'] at k1
          linear_combination k1 - k2
        rcases mul_eq_zero.mp this with h | h
        · exact sub_eq_zero.mp h
        · exact absurd h hy
      have l : (W a2 a4 a6).slope x1 x2 y1 y2 = (3 * x1 * x1 + 2 * a2 * x1 + a4) * (2 * y1)⁻¹ := by
        rw [hs, nY]
        simp only [W, div_eq_mul_inv]
        congr 1
        · ring
        · congr 1; ring
      simp only [e, Equiv.coe_fn_symm_mk, Option.some.injEq, Prod.mk.injEq]
      rw [l]
      constructor
      · simp [WeierstrassCurve.Affine.addX, W]; ring
      · simp [WeierstrassCurve.Affine.addY, WeierstrassCurve.Affine.negAddY, WeierstrassCurve.Affine.addX, WeierstrassCurve.Affine.negY, W]; ring
  · have hx' : x1 ≠ x2 := sub_ne_zero.mp hx
    rw [WeierstrassCurve.Affine.Point.add_of_X_ne hx', if_neg hx]
    have l : (W a2 a4 a6).slope x1 x2 y1 y2 = (y1 - y2) * (x1 - x2)⁻¹ := by
      rw [WeierstrassCurve.Affine.slope_of_X_ne hx', div_eq_mul_inv]
    simp only [e, Equiv.coe_fn_symm_mk, Option.some.injEq, Prod.mk.injEq]
    rw [l]
    constructor
    · simp [WeierstrassCurve.Affine.addX, W]; ring
    · simp [WeierstrassCurve.Affine.addY, WeierstrassCurve.Affine.negAddY, WeierstrassCurve.Affine.addX, WeierstrassCurve.Affine.negY, W]; ring

/-- the law is closed, and the points are an abelian group under it -/
theorem group {a2 a4 a6 : F} (h2 : (2 : F) ≠ 0) (hd : disc a2 a4 a6 ≠ 0) :
    ∃ add : Pt a2 a4 a6 → Pt a2 a4 a6 → Pt a2 a4 a6,
      (∀ p q, co (add p q) = law a2 a4 (co p) (co q)) ∧
      (∀ p q, add p q = add q p) ∧
      (∀ p q r, add (add p q) r = add p (add q r)) ∧
      (∀ p, add .O p = p) ∧
      (∀ p, add p (neg p) = .O) := by
  refine ⟨add h2 hd, add_is_law h2 hd, ?_, ?_, ?_, ?_⟩
  · intro p q; simp only [add, add_comm]
  · intro p q r; simp only [add, Equiv.apply_symm_apply, add_assoc]
  · intro p; exact co_inj (by rw [add_is_law]; simp [co, law])
  · intro p
    refine co_inj ?_
    rw [add_is_law]
    cases p <;> simp [co, law, neg]

/-- y^2 = x^3 + a x + b with 4 a^3 + 27 b^2 nonzero -/
theorem weierstrass {a b : F} (h : 4 * a ^ 3 + 27 * b ^ 2 ≠ 0) : disc 0 a b ≠ 0 := by
  intro k; apply h; simp only [disc] at k; linear_combination -k

/-- y^2 = x^3 + a x^2 + x with a^2 - 4 nonzero -/
theorem montgomery {a : F} (h : a ^ 2 - 4 ≠ 0) : disc a 1 0 ≠ 0 := by
  intro k; apply h; simp only [disc] at k; linear_combination k

end RedoxEcc
#print axioms RedoxEcc.group
