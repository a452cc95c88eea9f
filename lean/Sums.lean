import Mathlib.Algebra.BigOperators.Group.Finset.Basic
import Mathlib.Algebra.BigOperators.Ring.Finset
import Mathlib.Algebra.BigOperators.Intervals
import Mathlib.Algebra.Order.BigOperators.Group.Finset
import Mathlib.Order.Interval.Finset.Basic
import Mathlib.Data.Int.Interval
import Mathlib.Data.Real.Basic
import Mathlib.Tactic

/-! The lemmas about finite sums that pyvc/sums.py (normalisation) and pyvc/solve.py (instantiation) use.
`S lo hi f = ∑_{lo ≤ k < hi} f k` over the integers. -/

open Finset

noncomputable def S (lo hi : ℤ) (f : ℤ → ℝ) : ℝ := ∑ k ∈ Ico lo hi, f k

theorem S_empty (lo hi : ℤ) (f : ℤ → ℝ) (h : hi ≤ lo) : S lo hi f = 0 := by
  simp [S, Ico_eq_empty_of_le h]

theorem S_one (lo : ℤ) (f : ℤ → ℝ) : S lo (lo + 1) f = f lo := by
  have : Ico lo (lo + 1) = {lo} := by ext x; simp; omega
  simp [S, this]

theorem S_last (lo hi : ℤ) (f : ℤ → ℝ) (h : lo ≤ hi) : S lo (hi + 1) f = S lo hi f + f hi := by
  have : Ico lo (hi + 1) = insert hi (Ico lo hi) := by ext x; simp; omega
  rw [S, this, sum_insert (by simp), S]; ring

theorem S_first (lo hi : ℤ) (f : ℤ → ℝ) (h : lo < hi) : S lo hi f = f lo + S (lo + 1) hi f := by
  have : Ico lo hi = insert lo (Ico (lo + 1) hi) := by ext x; simp; omega
  rw [S, this, sum_insert (by simp), S]

/-- congruence: equal ranges and no index at which the terms differ -/
theorem S_congr (lo hi lo' hi' : ℤ) (f g : ℤ → ℝ) (h1 : lo = lo') (h2 : hi = hi')
    (h : ¬ ∃ k, lo ≤ k ∧ k < hi ∧ f k ≠ g k) : S lo hi f = S lo' hi' g := by
  subst h1 h2
  refine sum_congr rfl fun k hk => ?_
  simp only [mem_Ico] at hk
  by_contra hne
  exact h ⟨k, hk.1, hk.2, hne⟩

theorem S_add (lo hi : ℤ) (f g : ℤ → ℝ) : S lo hi (fun k => f k + g k) = S lo hi f + S lo hi g := sum_add_distrib

theorem S_smul (lo hi : ℤ) (c : ℝ) (f : ℤ → ℝ) : S lo hi (fun k => c * f k) = c * S lo hi f := by
  simp [S, mul_sum]

theorem S_const (lo hi : ℤ) (c : ℝ) : S lo hi (fun _ => c) = c * (if lo < hi then ((hi - lo : ℤ) : ℝ) else 0) := by
  simp only [S, sum_const, Int.card_Ico, nsmul_eq_mul]
  split_ifs with h
  · have : ((hi - lo).toNat : ℝ) = ((hi - lo : ℤ) : ℝ) := by
      have := Int.toNat_of_nonneg (show 0 ≤ hi - lo by omega)
      exact_mod_cast congrArg (fun z : ℤ => (z : ℝ)) this
    rw [this]; ring
  · have : (hi - lo).toNat = 0 := by omega
    rw [this]; simp

theorem S_shift (lo hi c : ℤ) (f : ℤ → ℝ) : S lo hi f = S (lo + c) (hi + c) (fun k => f (k - c)) := by
  unfold S
  refine sum_nbij' (fun k => k + c) (fun k => k - c) ?_ ?_ ?_ ?_ ?_
  · intro k hk; simp only [mem_Ico] at hk ⊢; omega
  · intro k hk; simp only [mem_Ico] at hk ⊢; omega
  · intro k _; ring
  · intro k _; ring
  · intro k _; congr 1; ring

theorem S_reflect (lo hi c : ℤ) (f : ℤ → ℝ) : S lo hi f = S (c - hi + 1) (c - lo + 1) (fun k => f (c - k)) := by
  unfold S
  refine sum_nbij' (fun k => c - k) (fun k => c - k) ?_ ?_ ?_ ?_ ?_
  · intro k hk; simp only [mem_Ico] at hk ⊢; omega
  · intro k hk; simp only [mem_Ico] at hk ⊢; omega
  · intro k _; ring
  · intro k _; ring
  · intro k _; congr 1; ring

theorem S_delta (lo hi c : ℤ) (t f r : ℤ → ℝ) :
    S lo hi (fun k => (if k = c then t k else f k) * r k) =
      (if c ≥ lo ∧ c < hi then (t c - f c) * r c else 0) + S lo hi (fun k => f k * r k) := by
  have e : (fun k => (if k = c then t k else f k) * r k) =
      fun k => (if k = c then (t c - f c) * r c else 0) + f k * r k := by
    funext k
    split_ifs with h
    · subst h; ring
    · ring
  rw [e, S_add]
  congr 1
  simp only [S, sum_ite_eq', mem_Ico]

theorem S_ite (lo hi : ℤ) (p : Prop) [Decidable p] (f g : ℤ → ℝ) :
    S lo hi (fun k => if p then f k else g k) = if p then S lo hi f else S lo hi g := by
  split_ifs <;> rfl

theorem S_sq_nonneg (lo hi : ℤ) (f : ℤ → ℝ) : 0 ≤ S lo hi (fun k => f k * f k) :=
  sum_nonneg fun k _ => mul_self_nonneg (f k)

theorem S_exchange (lo hi lo' hi' : ℤ) (f : ℤ → ℤ → ℝ) :
    S lo hi (fun i => S lo' hi' (fun j => f i j)) = S lo' hi' (fun j => S lo hi (fun i => f i j)) := sum_comm

#print axioms S_last
#print axioms S_first
#print axioms S_congr
#print axioms S_const
#print axioms S_shift
#print axioms S_reflect
#print axioms S_delta
