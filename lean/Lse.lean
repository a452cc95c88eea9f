import Mathlib.Analysis.SpecialFunctions.Exp
import Mathlib.Analysis.SpecialFunctions.Log.Basic
import Mathlib.Tactic

/-! C16, C17, C18: log-sum-exp lies above its tangents. -/

open Real

theorem lse_tangent (γ v0 v1 x0 x1 y0 y1 : ℝ) (hγ : 0 ≤ γ) (h0 : 0 ≤ v0) (h1 : 0 ≤ v1)
    (hS : 0 < γ + (v0 * exp x0 + v1 * exp x1)) :
    log (γ + (v0 * exp x0 + v1 * exp x1)) +
      (v0 * exp x0 * (y0 - x0) + v1 * exp x1 * (y1 - x1)) / (γ + (v0 * exp x0 + v1 * exp x1)) ≤
      log (γ + (v0 * exp y0 + v1 * exp y1)) := by
  set S := γ + (v0 * exp x0 + v1 * exp x1) with hSdef
  set d := (v0 * exp x0 * (y0 - x0) + v1 * exp x1 * (y1 - x1)) / S with hd
  -- tangent of exp at d
  have t : ∀ z : ℝ, exp d * (1 + (z - d)) ≤ exp z := by
    intro z
    have := add_one_le_exp (z - d)
    have h2 : exp z = exp d * exp (z - d) := by rw [← exp_add]; ring_nf
    rw [h2]
    exact mul_le_mul_of_nonneg_left (by linarith) (exp_pos d).le
  have e0 : exp y0 = exp x0 * exp (y0 - x0) := by rw [← exp_add]; ring_nf
  have e1 : exp y1 = exp x1 * exp (y1 - x1) := by rw [← exp_add]; ring_nf
  have a := mul_le_mul_of_nonneg_left (t 0) hγ
  have b := mul_le_mul_of_nonneg_left (t (y0 - x0)) (mul_nonneg h0 (exp_pos x0).le)
  have c := mul_le_mul_of_nonneg_left (t (y1 - x1)) (mul_nonneg h1 (exp_pos x1).le)
  have hdS : d * S = v0 * exp x0 * (y0 - x0) + v1 * exp x1 * (y1 - x1) := by
    rw [hd]; field_simp
  have key : exp d * S ≤ γ + (v0 * exp y0 + v1 * exp y1) := by
    have : γ * (exp d * (1 + (0 - d))) + v0 * exp x0 * (exp d * (1 + (y0 - x0 - d))) +
        v1 * exp x1 * (exp d * (1 + (y1 - x1 - d))) =
        exp d * (S - d * S + (v0 * exp x0 * (y0 - x0) + v1 * exp x1 * (y1 - x1))) := by
      rw [hSdef]; ring
    rw [e0, e1]
    rw [hdS] at this
    rw [exp_zero] at a
    nlinarith
  calc log S + d = log (exp d * S) := by rw [log_mul (exp_pos d).ne' hS.ne', log_exp]; ring
    _ ≤ _ := log_le_log (mul_pos (exp_pos d) hS) key

/-- the scalar facts about exp and log instantiated for the terms of an obligation (contracts/base.py, mathfacts) -/
theorem exp_log_facts : (∀ x : ℝ, 0 < exp x) ∧ (∀ x y : ℝ, x ≤ y ↔ exp x ≤ exp y) ∧
    (∀ s t : ℝ, 0 < s → (log s ≤ t ↔ s ≤ exp t)) ∧ (∀ s t : ℝ, 0 < s → (log s ≥ t ↔ s ≥ exp t)) ∧
    (∀ a b : ℝ, 0 < a → 0 < b → (a ≤ b ↔ log a ≤ log b)) :=
  ⟨exp_pos, fun _ _ => exp_le_exp.symm, fun _ _ h => log_le_iff_le_exp h, fun _ _ h => le_log_iff_exp_le h,
    fun _ _ h g => (log_le_log_iff h g).symm⟩

#print axioms lse_tangent
#print axioms exp_log_facts
