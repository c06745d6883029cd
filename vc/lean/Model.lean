import Mathlib.SetTheory.Cardinal.Finite
import Mathlib.Tactic.FieldSimp
import Mathlib.Tactic.LinearCombination
import Mathlib.Tactic.Ring

/-! A complete Edwards curve has as many points as its Montgomery model (the point at infinity included). -/

namespace RedoxEcc.Model

variable {F : Type*} [Field F]

/-- on the curve a x^2 + y^2 = 1 + d x^2 y^2 -/
def OnE (a d : F) (p : F × F) : Prop := a * p.1 ^ 2 + p.2 ^ 2 = 1 + d * p.1 ^ 2 * p.2 ^ 2

/-- on the curve b v^2 = u^3 + A u^2 + u -/
def OnM (A b : F) (p : F × F) : Prop := b * p.2 ^ 2 = p.1 ^ 3 + A * p.1 ^ 2 + p.1

theorem count {a d A b : F} (h2 : (2 : F) ≠ 0) (ha0 : a ≠ 0) (ha : ∃ s, s ^ 2 = a) (hd : ¬ ∃ s, s ^ 2 = d)
    (hA : A * (a - d) = 2 * (a + d)) (hb : b * (a - d) = 4) :
    Nat.card {p : F × F // OnE a d p} = Nat.card (Option {p : F × F // OnM A b p}) := by
  classical
  have had : a - d ≠ 0 := by
    intro h; rw [h] at hb
    have : (2 : F) * 2 = 0 := by linear_combination -hb
    rcases mul_eq_zero.mp this with h | h <;> exact h2 h
  have hb0 : b ≠ 0 := by
    intro h; rw [h] at hb
    have : (2 : F) * 2 = 0 := by linear_combination -hb
    rcases mul_eq_zero.mp this with h | h <;> exact h2 h
  have hb' : b = 4 / (a - d) := by rw [eq_div_iff had]; exact hb
  have hA' : A = 2 * (a + d) / (a - d) := by rw [eq_div_iff had]; exact hA
  -- y = 1 only at (0, 1)
  have one : ∀ x : F, OnE a d (x, 1) → x = 0 := by
    intro x h
    simp only [OnE] at h
    have : (a - d) * x ^ 2 = 0 := by linear_combination h
    rcases mul_eq_zero.mp this with h | h
    · exact absurd h had
    · exact pow_eq_zero_iff (two_ne_zero) |>.mp h
  -- x = 0 only at (0, 1), (0, -1)
  have xz : ∀ y : F, y ≠ 1 → OnE a d (0, y) → y = -1 := by
    intro y h1 h
    simp only [OnE] at h
    have : (y - 1) * (y + 1) = 0 := by linear_combination h
    rcases mul_eq_zero.mp this with h | h
    · exact absurd (sub_eq_zero.mp h) h1
    · exact eq_neg_of_add_eq_zero_left h
  -- no point of the Montgomery curve has u = -1
  have um : ∀ u v : F, OnM A b (u, v) → u + 1 ≠ 0 := by
    intro u v h hu
    simp only [OnM] at h
    have hu : u = -1 := eq_neg_of_add_eq_zero_left hu
    rw [hu, hb', hA'] at h
    apply hd
    refine ⟨v, ?_⟩
    field_simp at h
    have : (2 : F) * 2 * (v ^ 2 - d) = 0 := by linear_combination h
    rcases mul_eq_zero.mp this with h | h
    · rcases mul_eq_zero.mp h with h | h <;> exact absurd h h2
    · exact sub_eq_zero.mp h
  -- v = 0 only at (0, 0)
  have vz : ∀ u : F, OnM A b (u, 0) → u = 0 := by
    intro u h
    simp only [OnM] at h
    by_contra hu
    obtain ⟨s, rfl⟩ := ha
    have hs : s ≠ 0 := by intro h; apply ha0; rw [h]; ring
    have q : u ^ 2 + A * u + 1 = 0 := by
      have : u * (u ^ 2 + A * u + 1) = 0 := by linear_combination -h
      exact (mul_eq_zero.mp this).resolve_left hu
    rw [hA'] at q
    field_simp at q
    apply hd
    -- ((a - d) u + (a + d))^2 = 4 a d
    refine ⟨((s ^ 2 - d) * u + (s ^ 2 + d)) / (2 * s), ?_⟩
    have n : (2 * s) ^ 2 ≠ 0 := pow_ne_zero 2 (mul_ne_zero h2 hs)
    rw [div_pow, div_eq_iff n]
    linear_combination (s ^ 2 - d) * q
  refine Nat.card_congr ⟨
    fun p => if h : p.1.2 = 1 then none else
      some ⟨((1 + p.1.2) / (1 - p.1.2), (1 + p.1.2) / ((1 - p.1.2) * p.1.1)), ?_⟩,
    fun q => match q with
      | none => ⟨(0, 1), ?_⟩
      | some q => ⟨(q.1.1 / q.1.2, (q.1.1 - 1) / (q.1.1 + 1)), ?_⟩, ?_, ?_⟩
  · obtain ⟨⟨x, y⟩, k⟩ := p
    simp only at h ⊢
    have hy : 1 - y ≠ 0 := fun e => h (sub_eq_zero.mp e).symm
    by_cases hx : x = 0
    · subst hx
      rw [xz y h k]
      simp [OnM]
    · simp only [OnE, OnM] at k ⊢
      rw [hb', hA']
      field_simp
      linear_combination (-4 * (1 + y)) * k
  · simp [OnE]
  · obtain ⟨⟨u, v⟩, k⟩ := q
    have hu := um u v k
    simp only
    by_cases hv : v = 0
    · subst hv
      rw [vz u k]
      simp [OnE]
    · simp only [OnE, OnM] at k ⊢
      rw [hb', hA'] at k
      field_simp at k ⊢
      linear_combination (-u) * k
  · rintro ⟨⟨x, y⟩, k⟩
    by_cases h : y = 1
    · subst h
      have := one x k
      subst this
      simp
    · have hy : 1 - y ≠ 0 := fun e => h (sub_eq_zero.mp e).symm
      simp only [h, dite_false, Subtype.mk.injEq, Prod.mk.injEq]
      by_cases hx : x = 0
      · subst hx
        have := xz y h k
        subst this
        constructor <;> simp
      · have hy1 : 1 + y ≠ 0 := by
          intro e
          have e : y = -1 := by linear_combination e
          simp only [OnE] at k
          rw [e] at k
          have : (a - d) * x ^ 2 = 0 := by linear_combination k
          rcases mul_eq_zero.mp this with h | h
          · exact had h
          · exact hx (pow_eq_zero_iff (two_ne_zero) |>.mp h)
        constructor
        · field_simp
        · have e1 : (1 + y) / (1 - y) - 1 = 2 * y / (1 - y) := by field_simp; ring
          have e2 : (1 + y) / (1 - y) + 1 = 2 / (1 - y) := by field_simp; ring
          rw [e1, e2]
          field_simp
  · rintro (_ | ⟨⟨u, v⟩, k⟩)
    · simp
    · have hu := um u v k
      have hne : (u - 1) / (u + 1) ≠ 1 := by
        intro e
        rw [div_eq_one_iff_eq hu] at e
        apply h2
        linear_combination -e
      simp only [hne, dite_false, Option.some.injEq, Subtype.mk.injEq, Prod.mk.injEq]
      have e1 : 1 + (u - 1) / (u + 1) = 2 * u / (u + 1) := by field_simp; ring
      have e2 : 1 - (u - 1) / (u + 1) = 2 / (u + 1) := by field_simp; ring
      rw [e1, e2]
      by_cases hv : v = 0
      · subst hv
        rw [vz u k]
        simp
      · have hu0 : u ≠ 0 := by
          intro e
          simp only [OnM] at k
          rw [e] at k
          have : b * v ^ 2 = 0 := by linear_combination k
          rcases mul_eq_zero.mp this with h | h
          · exact hb0 h
          · exact hv (pow_eq_zero_iff (two_ne_zero) |>.mp h)
        constructor <;> field_simp

#print axioms count

end RedoxEcc.Model
