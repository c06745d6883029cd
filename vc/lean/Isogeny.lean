import Mathlib.Algebra.BigOperators.Group.Finset.Basic
import Mathlib.Algebra.Order.BigOperators.Group.Finset
import Mathlib.Data.Fintype.Card
import Mathlib.Tactic.Abel
import Mathlib.Tactic.NoncommRing

/-! A map of finite abelian groups that is odd, has small fibres, and is additive at all pairs S, T with
φ S, φ T nonzero and φ S ≠ ± φ T, is additive everywhere.  (vc/published.py `additive` shows the hypotheses of the
published isogenies.) -/

namespace RedoxEcc.Isogeny

variable {G H : Type*} [AddCommGroup G] [AddCommGroup H] [Fintype G] [DecidableEq G] [DecidableEq H]

omit [AddCommGroup H] in
theorem avoid (φ : G → H) (N : ℕ) (fib : ∀ h, (Finset.univ.filter (fun g => φ g = h)).card ≤ N)
    (L : List (G × H)) (big : L.length * N < Fintype.card G) :
    ∃ R, ∀ q ∈ L, φ (q.1 + R) ≠ q.2 := by
  by_contra hc
  push Not at hc
  have cover : (Finset.univ : Finset G) ⊆
      L.toFinset.biUnion (fun q => Finset.univ.filter (fun R => φ (q.1 + R) = q.2)) := by
    intro R _
    obtain ⟨q, hq, h⟩ := hc R
    simp only [Finset.mem_biUnion, List.mem_toFinset, Finset.mem_filter, Finset.mem_univ, true_and]
    exact ⟨q, hq, h⟩
  have each : ∀ q : G × H, (Finset.univ.filter (fun R => φ (q.1 + R) = q.2)).card ≤ N := by
    intro q
    refine le_trans ?_ (fib q.2)
    refine Finset.card_le_card_of_injOn (fun R => q.1 + R) ?_ ?_
    · intro R hR
      simpa using hR
    · intro a _ b _ h
      exact add_left_cancel h
  have := Finset.card_le_card cover
  have h2 := Finset.card_biUnion_le_card_mul L.toFinset
    (fun q => Finset.univ.filter (fun R => φ (q.1 + R) = q.2)) N (fun q _ => each q)
  have h3 : L.toFinset.card * N ≤ L.length * N := Nat.mul_le_mul_right _ (List.toFinset_card_le L)
  rw [Finset.card_univ] at this
  omega

section
variable (φ : G → H) (N : ℕ) (odd : ∀ g, φ (-g) = -φ g)
  (fib : ∀ h, (Finset.univ.filter (fun g => φ g = h)).card ≤ N) (big : 16 * N < Fintype.card G)
  (tors : ∀ h : H, h + h = 0 → h = 0)
  (gen : ∀ S T, φ S ≠ 0 → φ T ≠ 0 → φ S ≠ φ T → φ S ≠ -φ T → φ (S + T) = φ S + φ T)
include odd fib big tors gen

theorem both (P Q : G) (hP : φ P ≠ 0) (hQ : φ Q ≠ 0) : φ (P + Q) = φ P + φ Q := by
  classical
  obtain ⟨m, hm⟩ : ∃ m : H, ∀ h, h + h = φ Q - φ P → h = m := by
    by_cases e : ∃ m : H, m + m = φ Q - φ P
    · obtain ⟨m, e⟩ := e
      refine ⟨m, fun h k => sub_eq_zero.mp (tors _ ?_)⟩
      have : h - m + (h - m) = (h + h) - (m + m) := by abel
      rw [this, k, e, sub_self]
    · exact ⟨0, fun h k => absurd ⟨h, k⟩ e⟩
  obtain ⟨R, hR⟩ := avoid φ N fib
    [(0, 0), (0, φ P), (0, -φ P), (0, φ Q), (0, -φ Q), (0, m),
     (0, φ (P + Q) - φ P), (0, -φ (P + Q) - φ P)] (by simp only [List.length]; omega)
  simp only [List.mem_cons, List.not_mem_nil, or_false, forall_eq_or_imp, forall_eq, zero_add] at hR
  obtain ⟨r0, rP, rP', rQ, rQ', rm, rT, rT'⟩ := hR
  have a1 : φ (P + R) = φ P + φ R :=
    gen P R hP r0 (fun h => rP h.symm) (fun h => rP' (by rw [h, neg_neg]))
  have a2 : φ (Q - R) = φ Q - φ R := by
    rw [sub_eq_add_neg, sub_eq_add_neg, ← odd]
    refine gen Q (-R) hQ ?_ ?_ ?_
    · rw [odd]; exact neg_ne_zero.mpr r0
    · rw [odd]; intro h; exact rQ' (by rw [h, neg_neg])
    · rw [odd, neg_neg]; exact fun h => rQ h.symm
  have n1 : φ (P + R) ≠ 0 := by
    rw [a1]; intro h; exact rP' (by rw [eq_neg_iff_add_eq_zero, add_comm]; exact h)
  by_cases c : φ P + φ Q = 0
  · rw [c]
    by_contra t
    have n2 : φ (-(P + R)) ≠ 0 := by rw [odd]; exact neg_ne_zero.mpr n1
    have g := gen (P + Q) (-(P + R)) t n2
      (by
        rw [odd, a1]; intro h
        apply rT'
        have := congrArg Neg.neg h
        rw [neg_neg] at this
        rw [this]; abel)
      (by
        rw [odd, neg_neg, a1]; intro h
        apply rT
        rw [h]; abel)
    rw [show P + Q + -(P + R) = Q - R by abel, a2, odd, a1] at g
    apply t
    have : φ (P + Q) = (φ Q - φ R) + (φ P + φ R) := by rw [g]; abel
    rw [this, ← c]; abel
  · have g := gen (P + R) (Q - R) n1
      (by rw [a2]; intro h; exact rQ (sub_eq_zero.mp h).symm)
      (by
        rw [a1, a2]; intro h
        apply rm
        apply hm
        have : φ R + φ R = (φ P + φ R) + φ R - φ P := by abel
        rw [this, h]; abel)
      (by
        rw [a1, a2]; intro h
        apply c
        have : φ P + φ Q = (φ P + φ R) + (φ Q - φ R) := by abel
        rw [this, h]; abel)
    rw [show P + Q = (P + R) + (Q - R) by abel, g, a1, a2]
    abel

theorem kernelLeft' (P Q : G) (hP : φ P = 0) (hQ : φ Q ≠ 0) (hU : φ (P + Q) ≠ 0) : φ (P + Q) = φ Q := by
  have h := both φ N odd fib big tors gen (P + Q) (-Q) hU (by rw [odd]; exact neg_ne_zero.mpr hQ)
  rw [show P + Q + -Q = P by abel, hP, odd] at h
  have : φ (P + Q) = (φ (P + Q) + -φ Q) + φ Q := by abel
  rw [this, ← h, zero_add]

theorem kernelLeft (P Q : G) (hP : φ P = 0) (hQ : φ Q ≠ 0) : φ (P + Q) = φ Q := by
  classical
  by_cases hU : φ (P + Q) = 0
  · exfalso
    obtain ⟨R, hR⟩ := avoid φ N fib [(0, 0), (P, 0), (P + Q, 0)] (by simp only [List.length]; omega)
    simp only [List.mem_cons, List.not_mem_nil, or_false, forall_eq_or_imp, forall_eq, zero_add] at hR
    obtain ⟨r0, r1, r2⟩ := hR
    have h1 := both φ N odd fib big tors gen Q (P + R) hQ r1
    have h2 := kernelLeft' φ N odd fib big tors gen P R hP r0 r1
    have h3 := kernelLeft' φ N odd fib big tors gen (P + Q) R hU r0 r2
    rw [show Q + (P + R) = P + Q + R by abel, h2, h3] at h1
    apply hQ
    have : φ Q = φ Q + φ R - φ R := by abel
    rw [this, ← h1, sub_self]
  · exact kernelLeft' φ N odd fib big tors gen P Q hP hQ hU

theorem additive (P Q : G) : φ (P + Q) = φ P + φ Q := by
  by_cases hP : φ P = 0
  · by_cases hQ : φ Q = 0
    · rw [hP, hQ, zero_add]
      by_contra hU
      have h := kernelLeft φ N odd fib big tors gen (-P) (P + Q) (by rw [odd, hP, neg_zero]) hU
      rw [show -P + (P + Q) = Q by abel, hQ] at h
      exact hU h.symm
    · rw [kernelLeft φ N odd fib big tors gen P Q hP hQ, hP, zero_add]
  · by_cases hQ : φ Q = 0
    · rw [add_comm P Q, kernelLeft φ N odd fib big tors gen Q P hQ hP, hQ, add_zero]
    · exact both φ N odd fib big tors gen P Q hP hQ

end

#print axioms additive

end RedoxEcc.Isogeny
