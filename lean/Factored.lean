import Mathlib.Algebra.BigOperators.Group.Finset.Basic
import Mathlib.Algebra.BigOperators.Ring.Finset
import Mathlib.Algebra.BigOperators.Intervals
import Mathlib.Data.Real.Basic
import Mathlib.Tactic

/-! C05: the factored search space stores a unit lower `l` and a diagonal `d > 0`; the inverse shape is
`N = L D⁻¹ Lᵀ`, i.e. `N k m = ∑ j < n, l k j * l m j / d j`.
The contract of `EllStable._update_core` gives the recurrences below (`w`, `q`, `t`, `d'`, `l'`); they say that
`q = M g`, `ω = gᵀ M g` and that the new factors represent `N + g gᵀ / t 0`, `t 0 = ω (1-σ)/σ`, which is the
inverse of the plain update (`updated_inverse` in Ellipsoid.lean). -/

open Finset

variable (n : ℕ) (l : ℕ → ℕ → ℝ) (d g w : ℕ → ℝ)

/-- what is left of the gradient after the first `c` columns -/
def res (k c : ℕ) : ℝ := g k - ∑ i ∈ range c, l k i * w i

theorem res_succ (k c : ℕ) : res l g w k (c + 1) = res l g w k c - l k c * w c := by
  simp [res, sum_range_succ]; ring

/-- algebra of one column -/
theorem column (a b x y d w t t' : ℝ) (hd : d ≠ 0) (ht : t ≠ 0) (ht' : t' ≠ 0) (h : t' = t + d * w * w) :
    (a + d * w / t' * (x - a * w)) * (b + d * w / t' * (y - b * w)) / (d * t / t') =
      a * b / d + x * y / t - (x - a * w) * (y - b * w) / t' := by
  have hw : d * w * w = t' - t := by rw [h]; ring
  field_simp
  have e : d * w ^ 2 = t' - t := by rw [← hw]; ring
  have e2 : d ^ 2 * w ^ 2 = d * (t' - t) := by rw [← e]; ring
  subst h
  ring

theorem rank_one (t d' : ℕ → ℝ) (l' : ℕ → ℕ → ℝ)
    (hd : ∀ j < n, d j ≠ 0)
    (hunit : ∀ j < n, l j j = 1) (hupper : ∀ k < n, ∀ j < n, k < j → l k j = 0)
    (hw : ∀ k < n, w k = res l g w k k)
    (ht : ∀ j ≤ n, t j ≠ 0) (htt : ∀ j < n, t (j + 1) = t j + d j * w j * w j)
    (hd' : ∀ j < n, d' j = d j * t j / t (j + 1))
    (hl' : ∀ j < n, ∀ k < n, j < k → l' k j = l k j + d j * w j / t (j + 1) * res l g w k (j + 1))
    (hunit' : ∀ j < n, l' j j = 1) (hupper' : ∀ k < n, ∀ j < n, k < j → l' k j = 0)
    (k m : ℕ) (hk : k < n) (hm : m < n) :
    ∑ j ∈ range n, l' k j * l' m j / d' j = ∑ j ∈ range n, l k j * l m j / d j + g k * g m / t 0 := by
  -- beyond its own row the residual is zero
  have rz : ∀ k < n, ∀ j, k < j → j ≤ n → res l g w k j = 0 := by
    intro k hk j
    induction j with
    | zero => intro h; omega
    | succ j ih =>
      intro h hj
      rw [res_succ]
      rcases Nat.lt_or_ge k j with h1 | h1
      · rw [ih h1 (by omega), hupper k hk j (by omega) h1]; ring
      · have : j = k := by omega
        subst this
        rw [hunit j hk, ← hw j hk]; ring
  have full : ∀ j < n, ∀ k < n, l' k j = l k j + d j * w j / t (j + 1) * res l g w k (j + 1) := by
    intro j hj k hk
    rcases Nat.lt_trichotomy j k with h | h | h
    · exact hl' j hj k hk h
    · subst h
      rw [hunit' j hk, hunit j hk, rz j hk (j + 1) (by omega) (by omega)]; ring
    · rw [hupper' k hk j hj h, hupper k hk j hj h, rz k hk (j + 1) (by omega) (by omega)]; ring
  have step : ∀ c ≤ n, ∑ j ∈ range c, l' k j * l' m j / d' j =
      ∑ j ∈ range c, l k j * l m j / d j + g k * g m / t 0 - res l g w k c * res l g w m c / t c := by
    intro c
    induction c with
    | zero => intro _; simp [res]
    | succ c ih =>
      intro hc
      have hcn : c < n := by omega
      rw [sum_range_succ, ih (by omega), sum_range_succ, full c hcn k hk, full c hcn m hm, hd' c hcn, res_succ, res_succ,
        column (l k c) (l m c) (res l g w k c) (res l g w m c) (d c) (w c) (t c) (t (c + 1)) (hd c hcn)
          (ht c (by omega)) (ht (c + 1) hc) (htt c hcn)]
      ring
  rw [step n le_rfl, rz k hk n hk le_rfl]
  ring

/-- `L w = g` from the forward recurrence -/
theorem forward (hunit : ∀ j < n, l j j = 1) (hupper : ∀ k < n, ∀ j < n, k < j → l k j = 0)
    (hw : ∀ k < n, w k = res l g w k k) (k : ℕ) (hk : k < n) : ∑ j ∈ range n, l k j * w j = g k := by
  have hsplit : ∑ j ∈ range n, l k j * w j = ∑ j ∈ range (k + 1), l k j * w j := by
    symm
    apply sum_subset
    · intro x hx; simp at hx ⊢; omega
    · intro x hx hx'
      simp at hx hx'
      rw [hupper k hk x hx (by omega)]; ring
  rw [hsplit, sum_range_succ, hunit k hk, hw k hk, res]; ring

/-- `Lᵀ q = D w` from the backward recurrence -/
theorem backward (q : ℕ → ℝ) (hunit : ∀ j < n, l j j = 1) (hupper : ∀ k < n, ∀ j < n, k < j → l k j = 0)
    (hq : ∀ i < n, q i = d i * w i - ∑ j ∈ Ico (i + 1) n, l j i * q j) (i : ℕ) (hi : i < n) :
    ∑ j ∈ range n, l j i * q j = d i * w i := by
  have h1 : ∑ j ∈ range n, l j i * q j = ∑ j ∈ Ico i n, l j i * q j := by
    symm
    apply sum_subset
    · intro x hx; simp at hx ⊢; omega
    · intro x hx hx'
      simp at hx hx'
      rw [hupper x hx i hi (by omega)]; ring
  rw [h1, sum_eq_sum_Ico_succ_bot hi, hunit i hi, hq i hi]; ring

/-- `N q = g`: `q` is the image of the gradient under the shape -/
theorem shape_times_gradient (q : ℕ → ℝ) (hd : ∀ j < n, d j ≠ 0) (hLw : ∀ k < n, ∑ j ∈ range n, l k j * w j = g k)
    (hLq : ∀ i < n, ∑ j ∈ range n, l j i * q j = d i * w i) (k : ℕ) (hk : k < n) :
    ∑ m ∈ range n, (∑ j ∈ range n, l k j * l m j / d j) * q m = g k := by
  have : ∑ m ∈ range n, (∑ j ∈ range n, l k j * l m j / d j) * q m =
      ∑ j ∈ range n, l k j / d j * ∑ m ∈ range n, l m j * q m := by
    simp only [sum_mul, mul_sum]
    rw [sum_comm]
    refine sum_congr rfl fun j _ => sum_congr rfl fun m _ => by ring
  rw [this, ← hLw k hk]
  refine sum_congr rfl fun j hj => ?_
  have hj' : j < n := by simpa using hj
  rw [hLq j hj']
  have := hd j hj'
  field_simp

/-- `ω = gᵀ q = ∑ d w²` -/
theorem omega_is_quadratic_form (q : ℕ → ℝ) (hLw : ∀ k < n, ∑ j ∈ range n, l k j * w j = g k)
    (hLq : ∀ i < n, ∑ j ∈ range n, l j i * q j = d i * w i) :
    ∑ k ∈ range n, g k * q k = ∑ i ∈ range n, d i * (w i * w i) := by
  have : ∑ k ∈ range n, g k * q k = ∑ k ∈ range n, (∑ j ∈ range n, l k j * w j) * q k :=
    sum_congr rfl fun k hk => by rw [hLw k (by simpa using hk)]
  rw [this]
  simp only [sum_mul]
  rw [sum_comm]
  refine sum_congr rfl fun j hj => ?_
  have : ∑ k ∈ range n, l k j * w j * q k = w j * ∑ k ∈ range n, l k j * q k := by
    rw [mul_sum]; exact sum_congr rfl fun k _ => by ring
  rw [this, hLq j (by simpa using hj)]; ring

/-- the new diagonal stays positive -/
theorem diag_pos (t d' : ℕ → ℝ) (hd : ∀ j < n, 0 < d j) (h0 : 0 < t 0)
    (htt : ∀ j < n, t (j + 1) = t j + d j * w j * w j) (hd' : ∀ j < n, d' j = d j * t j / t (j + 1)) :
    ∀ j < n, 0 < d' j := by
  have hp : ∀ j ≤ n, 0 < t j := by
    intro j
    induction j with
    | zero => intro _; exact h0
    | succ j ih =>
      intro hj
      rw [htt j (by omega)]
      have := ih (by omega)
      have h2 := hd j (by omega)
      have : 0 ≤ d j * w j * w j := by
        have := mul_nonneg h2.le (mul_self_nonneg (w j)); linarith
      linarith [ih (by omega)]
  intro j hj
  rw [hd' j hj]
  exact div_pos (mul_pos (hd j hj) (hp j hj.le)) (hp (j + 1) hj)

#print axioms rank_one
#print axioms forward
#print axioms backward
#print axioms shape_times_gradient
#print axioms omega_is_quadratic_form
#print axioms diag_pos
