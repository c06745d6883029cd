import Mathlib.Tactic.FieldSimp
import Mathlib.Tactic.LinearCombination
import Mathlib.Tactic.Ring

/-! The Edwards law used by vc/specs/point.py (function `law`) with a a nonzero square and d not a square is an
abelian group, and its denominators never vanish. -/

namespace RedoxEcc.Edwards

variable {F : Type*} [Field F]

/-- on the curve a x^2 + y^2 = 1 + d x^2 y^2 -/
def On (a d : F) (p : F × F) : Prop := a * p.1 ^ 2 + p.2 ^ 2 = 1 + d * p.1 ^ 2 * p.2 ^ 2

def law (a d : F) (p q : F × F) : F × F :=
  let e := d * p.1 * q.1 * p.2 * q.2
  ((p.1 * q.2 + q.1 * p.2) * (1 + e)⁻¹, (p.2 * q.2 - a * p.1 * q.1) * (1 - e)⁻¹)

theorem denominators {a d : F} (h2 : (2 : F) ≠ 0) (ha0 : a ≠ 0) (ha : ∃ s, s ^ 2 = a) (hd : ¬ ∃ s, s ^ 2 = d)
    {x1 y1 x2 y2 : F} (k1 : On a d (x1, y1)) (k2 : On a d (x2, y2)) :
    1 + d * x1 * x2 * y1 * y2 ≠ 0 ∧ 1 - d * x1 * x2 * y1 * y2 ≠ 0 := by
  simp only [On] at k1 k2
  obtain ⟨s, rfl⟩ := ha
  have hs : s ≠ 0 := by intro h; apply ha0; rw [h]; ring
  have key : ∀ e : F, e = d * x1 * x2 * y1 * y2 → e ^ 2 ≠ 1 := by
    intro e he h1
    have he0 : e ≠ 0 := by intro h; rw [h] at h1; norm_num at h1
    have hx1 : x1 ≠ 0 := by intro h; apply he0; rw [he, h]; ring
    have hx2 : x2 ≠ 0 := by intro h; apply he0; rw [he, h]; ring
    have hy1 : y1 ≠ 0 := by intro h; apply he0; rw [he, h]; ring
    have hy2 : y2 ≠ 0 := by intro h; apply he0; rw [he, h]; ring
    have h1' : (d * x1 * x2 * y1 * y2) ^ 2 = 1 := by rw [← he]; exact h1
    have A : (s * x1 + e * y1) ^ 2 = d * (x1 * y1 * (s * x2 + y2)) ^ 2 := by
      rw [he]
      linear_combination k1 - (d * x1 ^ 2 * y1 ^ 2) * k2 + (y1 ^ 2 - 1) * h1'
    have B : (s * x1 - e * y1) ^ 2 = d * (x1 * y1 * (s * x2 - y2)) ^ 2 := by
      rw [he]
      linear_combination k1 - (d * x1 ^ 2 * y1 ^ 2) * k2 + (y1 ^ 2 - 1) * h1'
    by_cases c1 : s * x2 + y2 = 0
    · by_cases c2 : s * x2 - y2 = 0
      · have : 2 * y2 = 0 := by linear_combination c1 - c2
        rcases mul_eq_zero.mp this with h | h
        · exact h2 h
        · exact hy2 h
      · apply hd
        refine ⟨(s * x1 - e * y1) / (x1 * y1 * (s * x2 - y2)), ?_⟩
        have n : x1 * y1 * (s * x2 - y2) ≠ 0 := mul_ne_zero (mul_ne_zero hx1 hy1) c2
        rw [div_pow, B, mul_div_assoc, div_self (pow_ne_zero 2 n), mul_one]
    · apply hd
      refine ⟨(s * x1 + e * y1) / (x1 * y1 * (s * x2 + y2)), ?_⟩
      have n : x1 * y1 * (s * x2 + y2) ≠ 0 := mul_ne_zero (mul_ne_zero hx1 hy1) c1
      rw [div_pow, A, mul_div_assoc, div_self (pow_ne_zero 2 n), mul_one]
  constructor
  · intro h; exact key _ rfl (by linear_combination (d * x1 * x2 * y1 * y2 - 1) * h)
  · intro h; exact key _ rfl (by linear_combination (-(d * x1 * x2 * y1 * y2) - 1) * h)

section
variable {a d : F} (h2 : (2 : F) ≠ 0) (ha0 : a ≠ 0) (ha : ∃ s, s ^ 2 = a) (hd : ¬ ∃ s, s ^ 2 = d)
include h2 ha0 ha hd

theorem closed {p q : F × F} (k1 : On a d p) (k2 : On a d q) : On a d (law a d p q) := by
  obtain ⟨x1, y1⟩ := p
  obtain ⟨x2, y2⟩ := q
  obtain ⟨n1, n2⟩ := denominators h2 ha0 ha hd k1 k2
  simp only [On] at k1 k2
  have h1 : a * x1 ^ 2 + y1 ^ 2 - 1 - d * x1 ^ 2 * y1 ^ 2 = 0 := by linear_combination k1
  have h2 : a * x2 ^ 2 + y2 ^ 2 - 1 - d * x2 ^ 2 * y2 ^ 2 = 0 := by linear_combination k2
  simp only [On, law, ← div_eq_mul_inv, div_pow]
  rw [← sub_eq_zero]
  have frac : ∀ u v D E : F, D ≠ 0 → E ≠ 0 → a * (u ^ 2 / D ^ 2) + v ^ 2 / E ^ 2 - (1 + d * (u ^ 2 / D ^ 2) * (v ^ 2 / E ^ 2)) =
      (a * u ^ 2 * E ^ 2 + v ^ 2 * D ^ 2 - D ^ 2 * E ^ 2 - d * u ^ 2 * v ^ 2) / (D ^ 2 * E ^ 2) := by
    intro u v D E hD hE; field_simp; ring
  rw [frac _ _ _ _ n1 n2, div_eq_zero_iff]
  left
  linear_combination (-a^2*d*x1^2*x2^4*y2^2 - 2*a^2*x2^4*y2^2 + a^2*x2^4 + a*d^2*x1^2*x2^4*y2^4 - a*d*x1^2*x2^2*y2^4 - a*d*x2^4*y1^2*y2^2 + 2*a*d*x2^4*y2^4 - 2*a*x2^2*y2^4 + 4*a*x2^2*y2^2 + d^3*x1^2*x2^4*y1^2*y2^4 + d^2*x2^4*y1^2*y2^4 - d^2*x2^4*y2^4 - d*x2^2*y1^2*y2^4 - 2*d*x2^2*y2^2 + y2^4) * h1 + (a^2*d*x1^4*x2^2*y2^2 + 2*a^2*x1^2*x2^2*y2^2 - a^2*x1^2*x2^2 - 2*a*d*x1^2*x2^2*y2^2 - a*x1^2*y2^2 + 2*a*x2^2*y1^2*y2^2 - a*x2^2*y1^2 - 2*a*x2^2*y2^2 + a*x2^2 + d*x2^2*y1^4*y2^2 - 2*d*x2^2*y1^2*y2^2 + d*x2^2*y2^2 - y1^2*y2^2 + y2^2 + 1) * h2

theorem assoc {p q r : F × F} (k1 : On a d p) (k2 : On a d q) (k3 : On a d r) :
    law a d (law a d p q) r = law a d p (law a d q r) := by
  have k12 := closed h2 ha0 ha hd k1 k2
  have k23 := closed h2 ha0 ha hd k2 k3
  obtain ⟨x1, y1⟩ := p
  obtain ⟨x2, y2⟩ := q
  obtain ⟨x3, y3⟩ := r
  obtain ⟨n1, n2⟩ := denominators h2 ha0 ha hd k1 k2
  obtain ⟨n3, n4⟩ := denominators h2 ha0 ha hd k2 k3
  obtain ⟨m1, m2⟩ := denominators h2 ha0 ha hd k12 k3
  obtain ⟨m3, m4⟩ := denominators h2 ha0 ha hd k1 k23
  simp only [On] at k1 k2 k3
  have h1 : a * x1 ^ 2 + y1 ^ 2 - 1 - d * x1 ^ 2 * y1 ^ 2 = 0 := by linear_combination k1
  have h2 : a * x2 ^ 2 + y2 ^ 2 - 1 - d * x2 ^ 2 * y2 ^ 2 = 0 := by linear_combination k2
  have h3 : a * x3 ^ 2 + y3 ^ 2 - 1 - d * x3 ^ 2 * y3 ^ 2 = 0 := by linear_combination k3
  simp only at m1 m2 m3 m4 ⊢
  -- the two denominators as polynomials
  have l : ∀ u v D E : F, D ≠ 0 → E ≠ 0 → d * (u * D⁻¹) * x3 * (v * E⁻¹) * y3 = d * u * v * x3 * y3 / (D * E) := by
    intro u v D E hD hE; field_simp
  have l' : ∀ u v D E : F, D ≠ 0 → E ≠ 0 → d * x1 * (u * D⁻¹) * y1 * (v * E⁻¹) = d * u * v * x1 * y1 / (D * E) := by
    intro u v D E hD hE; field_simp
  rw [l _ _ _ _ n1 n2] at m1 m2
  rw [l' _ _ _ _ n3 n4] at m3 m4
  simp only [law]
  rw [l _ _ _ _ n1 n2, l' _ _ _ _ n3 n4]
  generalize hD1 : 1 + d * x1 * x2 * y1 * y2 = D1 at *
  generalize hE1 : 1 - d * x1 * x2 * y1 * y2 = E1 at *
  generalize hD2 : 1 + d * x2 * x3 * y2 * y3 = D2 at *
  generalize hE2 : 1 - d * x2 * x3 * y2 * y3 = E2 at *
  have w1 : D1 * E1 ≠ 0 := mul_ne_zero n1 n2
  have w2 : D2 * E2 ≠ 0 := mul_ne_zero n3 n4
  have z1 : 1 + d * (x1 * y2 + x2 * y1) * (y1 * y2 - a * x1 * x2) * x3 * y3 / (D1 * E1) =
    (D1 * E1 + d * (x1 * y2 + x2 * y1) * (y1 * y2 - a * x1 * x2) * x3 * y3) / (D1 * E1) := by field_simp
  have z2 : 1 - d * (x1 * y2 + x2 * y1) * (y1 * y2 - a * x1 * x2) * x3 * y3 / (D1 * E1) =
    (D1 * E1 - d * (x1 * y2 + x2 * y1) * (y1 * y2 - a * x1 * x2) * x3 * y3) / (D1 * E1) := by field_simp
  have z3 : 1 + d * (x2 * y3 + x3 * y2) * (y2 * y3 - a * x2 * x3) * x1 * y1 / (D2 * E2) =
    (D2 * E2 + d * (x2 * y3 + x3 * y2) * (y2 * y3 - a * x2 * x3) * x1 * y1) / (D2 * E2) := by field_simp
  have z4 : 1 - d * (x2 * y3 + x3 * y2) * (y2 * y3 - a * x2 * x3) * x1 * y1 / (D2 * E2) =
    (D2 * E2 - d * (x2 * y3 + x3 * y2) * (y2 * y3 - a * x2 * x3) * x1 * y1) / (D2 * E2) := by field_simp
  rw [z1] at m1
  rw [z2] at m2
  rw [z3] at m3
  rw [z4] at m4
  rw [z1, z2, z3, z4]
  have g1 := (div_ne_zero_iff.mp m1).1
  have g2 := (div_ne_zero_iff.mp m2).1
  have g3 := (div_ne_zero_iff.mp m3).1
  have g4 := (div_ne_zero_iff.mp m4).1
  have X1 : ((x1 * y2 + x2 * y1) * D1⁻¹ * y3 + x3 * ((y1 * y2 - a * x1 * x2) * E1⁻¹)) *
      ((D1 * E1 + d * (x1 * y2 + x2 * y1) * (y1 * y2 - a * x1 * x2) * x3 * y3) / (D1 * E1))⁻¹ =
      ((x1 * y2 + x2 * y1) * y3 * E1 + x3 * (y1 * y2 - a * x1 * x2) * D1) /
      (D1 * E1 + d * (x1 * y2 + x2 * y1) * (y1 * y2 - a * x1 * x2) * x3 * y3) := by
    rw [inv_div, ← mul_div_assoc]; congr 1; field_simp
  have Y1 : ((y1 * y2 - a * x1 * x2) * E1⁻¹ * y3 - a * ((x1 * y2 + x2 * y1) * D1⁻¹) * x3) *
      ((D1 * E1 - d * (x1 * y2 + x2 * y1) * (y1 * y2 - a * x1 * x2) * x3 * y3) / (D1 * E1))⁻¹ =
      ((y1 * y2 - a * x1 * x2) * y3 * D1 - a * (x1 * y2 + x2 * y1) * x3 * E1) /
      (D1 * E1 - d * (x1 * y2 + x2 * y1) * (y1 * y2 - a * x1 * x2) * x3 * y3) := by
    rw [inv_div, ← mul_div_assoc]; congr 1; field_simp
  have X2 : (x1 * ((y2 * y3 - a * x2 * x3) * E2⁻¹) + (x2 * y3 + x3 * y2) * D2⁻¹ * y1) *
      ((D2 * E2 + d * (x2 * y3 + x3 * y2) * (y2 * y3 - a * x2 * x3) * x1 * y1) / (D2 * E2))⁻¹ =
      (x1 * (y2 * y3 - a * x2 * x3) * D2 + (x2 * y3 + x3 * y2) * y1 * E2) /
      (D2 * E2 + d * (x2 * y3 + x3 * y2) * (y2 * y3 - a * x2 * x3) * x1 * y1) := by
    rw [inv_div, ← mul_div_assoc]; congr 1; field_simp
  have Y2 : (y1 * ((y2 * y3 - a * x2 * x3) * E2⁻¹) - a * x1 * ((x2 * y3 + x3 * y2) * D2⁻¹)) *
      ((D2 * E2 - d * (x2 * y3 + x3 * y2) * (y2 * y3 - a * x2 * x3) * x1 * y1) / (D2 * E2))⁻¹ =
      (y1 * (y2 * y3 - a * x2 * x3) * D2 - a * x1 * (x2 * y3 + x3 * y2) * E2) /
      (D2 * E2 - d * (x2 * y3 + x3 * y2) * (y2 * y3 - a * x2 * x3) * x1 * y1) := by
    rw [inv_div, ← mul_div_assoc]; congr 1; field_simp
  rw [X1, Y1, X2, Y2, Prod.mk.injEq]
  constructor
  · rw [div_eq_div_iff g1 g3, ← hD1, ← hE1, ← hD2, ← hE2]
    linear_combination (-a^2*d*x1*x2^4*x3^2*y2*y3 - a^2*d*x1*x2^3*x3^3*y2^2 + a*d^2*x1*x2^4*x3^2*y2^3*y3 + a*d*x1*x2^3*x3*y2^2 - a*d*x2^4*x3*y1*y2*y3^2 + a*d*x2^2*x3^3*y1*y2^3 - d^2*x1*x2^3*x3*y2^4*y3^2 + d^2*x2^4*x3*y1*y2^3*y3^2 + d^2*x2^3*x3^2*y1*y2^4*y3 + d*x1*x2^2*y2^3*y3^3 - d*x1*x2^2*y2^3*y3 + d*x1*x2*x3*y2^4*y3^2 + d*x2^3*y1*y2^2*y3^3 - d*x2^3*y1*y2^2*y3 - d*x2^2*x3*y1*y2^3 - d*x2*x3^2*y1*y2^4*y3) * h1 + (-a^3*x1^3*x2*x3^3 + a^2*d*x1^3*x2^2*x3^2*y2*y3 + a^2*d*x1^3*x2*x3^3*y3^2 - a^2*x1^3*x2*x3*y3^2 + a^2*x1^3*x2*x3 + a^2*x1^3*x3^2*y2*y3 + a^2*x1^2*x2*x3^2*y1*y3 + a^2*x1^2*x3^3*y1*y2 - a^2*x1*x2*x3^3*y1^2 + a^2*x1*x2*x3^3 - a*d^2*x1^2*x2^2*x3^3*y1*y2*y3^2 - a*d*x1^3*x2*x3*y2^2*y3^2 - a*d*x1^3*x3^2*y2*y3^3 + a*d*x1^2*x2^2*x3*y1*y2*y3^2 + a*d*x1^2*x2*x3^2*y1*y2^2*y3 - a*d*x1^2*x2*x3^2*y1*y3^3 - a*d*x1^2*x3^3*y1*y2*y3^2 + a*d*x1*x2^2*x3^2*y1^2*y2*y3 - a*d*x1*x2^2*x3^2*y2*y3 + a*d*x1*x2*x3^3*y1^2*y3^2 - a*d*x1*x2*x3^3*y3^2 + a*x1^3*y2*y3^3 - a*x1^3*y2*y3 + a*x1^2*x2*y1*y3^3 - a*x1^2*x2*y1*y3 + a*x1^2*x3*y1*y2*y3^2 - a*x1^2*x3*y1*y2 - a*x1*x2*x3*y1^2*y3^2 + a*x1*x2*x3*y1^2 + a*x1*x2*x3*y3^2 - a*x1*x2*x3 + a*x1*x3^2*y1^2*y2*y3 - a*x1*x3^2*y2*y3 + a*x2*x3^2*y1^3*y3 - a*x2*x3^2*y1*y3 + a*x3^3*y1^3*y2 - a*x3^3*y1*y2 - d^2*x1^2*x2*x3^2*y1*y2^2*y3^3 - d^2*x1*x2^2*x3^2*y1^2*y2*y3^3 + d^2*x1*x2*x3^3*y1^2*y2^2*y3^2 - d*x1*x2*x3*y1^2*y2^2*y3^2 + d*x1*x2*x3*y2^2*y3^2 - d*x1*x3^2*y1^2*y2*y3^3 + d*x1*x3^2*y2*y3^3 + d*x2^2*x3*y1^3*y2*y3^2 - d*x2^2*x3*y1*y2*y3^2 + d*x2*x3^2*y1^3*y2^2*y3 - d*x2*x3^2*y1^3*y3^3 - d*x2*x3^2*y1*y2^2*y3 + d*x2*x3^2*y1*y3^3 - d*x3^3*y1^3*y2*y3^2 + d*x3^3*y1*y2*y3^2 + x1*y1^2*y2*y3^3 - x1*y1^2*y2*y3 - x1*y2*y3^3 + x1*y2*y3 + x2*y1^3*y3^3 - x2*y1^3*y3 - x2*y1*y3^3 + x2*y1*y3 + x3*y1^3*y2*y3^2 - x3*y1^3*y2 - x3*y1*y2*y3^2 + x3*y1*y2) * h2 + (a^3*x1^3*x2^3*x3 - a^2*x1^3*x2^2*y2*y3 + a^2*x1^3*x2*x3*y2^2 - a^2*x1^3*x2*x3 - a^2*x1^2*x2^3*y1*y3 - a^2*x1^2*x2^2*x3*y1*y2 + a^2*x1*x2^3*x3*y1^2 - a^2*x1*x2^3*x3 + a*d*x1^2*x2^2*x3*y1*y2 - a*x1^3*y2^3*y3 + a*x1^3*y2*y3 - a*x1^2*x2*y1*y2^2*y3 + a*x1^2*x2*y1*y3 - a*x1^2*x3*y1*y2^3 + a*x1^2*x3*y1*y2 - a*x1*x2^2*y1^2*y2*y3 + a*x1*x2^2*y2*y3 + a*x1*x2*x3*y1^2*y2^2 - a*x1*x2*x3*y1^2 - a*x1*x2*x3*y2^2 + a*x1*x2*x3 - a*x2^3*y1^3*y3 + a*x2^3*y1*y3 - a*x2^2*x3*y1^3*y2 + a*x2^2*x3*y1*y2 + d*x1^2*x2*y1*y2^2*y3 + d*x1*x2^2*y1^2*y2*y3 - d*x1*x2*x3*y1^2*y2^2 - x1*y1^2*y2^3*y3 + x1*y1^2*y2*y3 + x1*y2^3*y3 - x1*y2*y3 - x2*y1^3*y2^2*y3 + x2*y1^3*y3 + x2*y1*y2^2*y3 - x2*y1*y3 - x3*y1^3*y2^3 + x3*y1^3*y2 + x3*y1*y2^3 - x3*y1*y2) * h3
  · rw [div_eq_div_iff g2 g4, ← hD1, ← hE1, ← hD2, ← hE2]
    linear_combination (a^2*d*x1*x2^4*x3*y2*y3^2 - a^2*d*x1*x2^2*x3^3*y2^3 - a^2*d*x2^4*x3^2*y1*y2*y3 - a^2*d*x2^3*x3^3*y1*y2^2 - a*d^2*x1*x2^4*x3*y2^3*y3^2 - a*d^2*x1*x2^3*x3^2*y2^4*y3 + a*d^2*x2^4*x3^2*y1*y2^3*y3 - a*d*x1*x2^3*y2^2*y3^3 + a*d*x1*x2^3*y2^2*y3 + a*d*x1*x2^2*x3*y2^3 + a*d*x1*x2*x3^2*y2^4*y3 + a*d*x2^3*x3*y1*y2^2 - d^2*x2^3*x3*y1*y2^4*y3^2 + d*x2^2*y1*y2^3*y3^3 - d*x2^2*y1*y2^3*y3 + d*x2*x3*y1*y2^4*y3^2) * h1 + (-a^3*x1^3*x2*x3^2*y3 - a^3*x1^3*x3^3*y2 - a^3*x1^2*x2*x3^3*y1 - a^2*d*x1^3*x2^2*x3*y2*y3^2 - a^2*d*x1^3*x2*x3^2*y2^2*y3 + a^2*d*x1^3*x2*x3^2*y3^3 + a^2*d*x1^3*x3^3*y2*y3^2 + a^2*d*x1^2*x2^2*x3^2*y1*y2*y3 + a^2*d*x1^2*x2*x3^3*y1*y3^2 - a^2*x1^3*x2*y3^3 + a^2*x1^3*x2*y3 - a^2*x1^3*x3*y2*y3^2 + a^2*x1^3*x3*y2 - a^2*x1^2*x2*x3*y1*y3^2 + a^2*x1^2*x2*x3*y1 + a^2*x1^2*x3^2*y1*y2*y3 - a^2*x1*x2*x3^2*y1^2*y3 + a^2*x1*x2*x3^2*y3 - a^2*x1*x3^3*y1^2*y2 + a^2*x1*x3^3*y2 - a^2*x2*x3^3*y1^3 + a^2*x2*x3^3*y1 - a*d^2*x1^2*x2^2*x3^2*y1*y2*y3^3 + a*d^2*x1^2*x2*x3^3*y1*y2^2*y3^2 + a*d^2*x1*x2^2*x3^3*y1^2*y2*y3^2 - a*d*x1^2*x2*x3*y1*y2^2*y3^2 - a*d*x1^2*x3^2*y1*y2*y3^3 - a*d*x1*x2^2*x3*y1^2*y2*y3^2 + a*d*x1*x2^2*x3*y2*y3^2 - a*d*x1*x2*x3^2*y1^2*y2^2*y3 + a*d*x1*x2*x3^2*y1^2*y3^3 + a*d*x1*x2*x3^2*y2^2*y3 - a*d*x1*x2*x3^2*y3^3 + a*d*x1*x3^3*y1^2*y2*y3^2 - a*d*x1*x3^3*y2*y3^2 + a*d*x2^2*x3^2*y1^3*y2*y3 - a*d*x2^2*x3^2*y1*y2*y3 + a*d*x2*x3^3*y1^3*y3^2 - a*d*x2*x3^3*y1*y3^2 + a*x1^2*y1*y2*y3^3 - a*x1^2*y1*y2*y3 - a*x1*x2*y1^2*y3^3 + a*x1*x2*y1^2*y3 + a*x1*x2*y3^3 - a*x1*x2*y3 - a*x1*x3*y1^2*y2*y3^2 + a*x1*x3*y1^2*y2 + a*x1*x3*y2*y3^2 - a*x1*x3*y2 - a*x2*x3*y1^3*y3^2 + a*x2*x3*y1^3 + a*x2*x3*y1*y3^2 - a*x2*x3*y1 + a*x3^2*y1^3*y2*y3 - a*x3^2*y1*y2*y3 + d^2*x1*x2*x3^2*y1^2*y2^2*y3^3 - d*x2*x3*y1^3*y2^2*y3^2 + d*x2*x3*y1*y2^2*y3^2 - d*x3^2*y1^3*y2*y3^3 + d*x3^2*y1*y2*y3^3 + y1^3*y2*y3^3 - y1^3*y2*y3 - y1*y2*y3^3 + y1*y2*y3) * h2 + (a^3*x1^3*x2^3*y3 + a^3*x1^3*x2^2*x3*y2 + a^3*x1^2*x2^3*x3*y1 + a^2*x1^3*x2*y2^2*y3 - a^2*x1^3*x2*y3 + a^2*x1^3*x3*y2^3 - a^2*x1^3*x3*y2 - a^2*x1^2*x2^2*y1*y2*y3 + a^2*x1^2*x2*x3*y1*y2^2 - a^2*x1^2*x2*x3*y1 + a^2*x1*x2^3*y1^2*y3 - a^2*x1*x2^3*y3 + a^2*x1*x2^2*x3*y1^2*y2 - a^2*x1*x2^2*x3*y2 + a^2*x2^3*x3*y1^3 - a^2*x2^3*x3*y1 + a*d*x1^2*x2^2*y1*y2*y3 - a*d*x1^2*x2*x3*y1*y2^2 - a*d*x1*x2^2*x3*y1^2*y2 - a*x1^2*y1*y2^3*y3 + a*x1^2*y1*y2*y3 + a*x1*x2*y1^2*y2^2*y3 - a*x1*x2*y1^2*y3 - a*x1*x2*y2^2*y3 + a*x1*x2*y3 + a*x1*x3*y1^2*y2^3 - a*x1*x3*y1^2*y2 - a*x1*x3*y2^3 + a*x1*x3*y2 - a*x2^2*y1^3*y2*y3 + a*x2^2*y1*y2*y3 + a*x2*x3*y1^3*y2^2 - a*x2*x3*y1^3 - a*x2*x3*y1*y2^2 + a*x2*x3*y1 - d*x1*x2*y1^2*y2^2*y3 - y1^3*y2^3*y3 + y1^3*y2*y3 + y1*y2^3*y3 - y1*y2*y3) * h3
end

/-- the points with the law are an abelian group with neutral element (0, 1) and inverses (-x, y) -/
theorem group {a d : F} (h2 : (2 : F) ≠ 0) (ha0 : a ≠ 0) (ha : ∃ s, s ^ 2 = a) (hd : ¬ ∃ s, s ^ 2 = d) :
    (∀ p q, On a d p → On a d q → On a d (law a d p q)) ∧
    (∀ p q, law a d p q = law a d q p) ∧
    (∀ p q r, On a d p → On a d q → On a d r → law a d (law a d p q) r = law a d p (law a d q r)) ∧
    On a d (0, 1) ∧ (∀ p, law a d (0, 1) p = p) ∧
    (∀ x y, On a d (x, y) → On a d (-x, y) ∧ law a d (x, y) (-x, y) = (0, 1)) := by
  refine ⟨fun p q => closed h2 ha0 ha hd, ?_, fun p q r => assoc h2 ha0 ha hd, ?_, ?_, ?_⟩
  · intro p q
    simp only [law, Prod.mk.injEq]
    constructor
    · congr 1
      · ring
      · congr 1; ring
    · congr 1
      · ring
      · congr 1; ring
  · simp [On]
  · intro p; simp [law]
  · intro x y k
    have k' : On a d (-x, y) := by simp only [On, neg_sq] at k ⊢; exact k
    refine ⟨k', ?_⟩
    obtain ⟨_, n2⟩ := denominators h2 ha0 ha hd k k'
    simp only [law, Prod.mk.injEq]
    constructor
    · have : x * y + -x * y = 0 := by ring
      rw [this, zero_mul]
    · simp only [On] at k
      have : y * y - a * x * -x = 1 - d * x * -x * y * y := by linear_combination k
      rw [this, mul_inv_cancel₀ n2]

end RedoxEcc.Edwards
#print axioms RedoxEcc.Edwards.group
