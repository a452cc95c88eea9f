import Mathlib.Algebra.BigOperators.Group.Finset.Basic
import Mathlib.Algebra.BigOperators.Ring.Finset
import Mathlib.Algebra.BigOperators.Intervals
import Mathlib.Algebra.Order.BigOperators.Group.Finset
import Mathlib.Analysis.Real.Sqrt
import Mathlib.Tactic

/-! C12, C13, C15: what the elimination computed by `LDLTMgr` says about definiteness.

`u i j` (`j ≤ i`) are the entries of the elimination on the rows `s ≤ · < e` (the contract of `factor`):
`u i j = a i j - ∑_{s ≤ k < j} u i k / u k k * u j k`; `l i k = u i k / u k k` below the diagonal. -/

open Finset

variable (a u : ℕ → ℕ → ℝ) (s e : ℕ)

/-- the elimination contract on the block `[s, e)` -/
def Elim : Prop := ∀ i j, s ≤ j → j ≤ i → i < e → u i j = a i j - ∑ k ∈ Ico s j, u i k / u k k * u j k

/-- the unit lower factor -/
noncomputable def low (u : ℕ → ℕ → ℝ) (i k : ℕ) : ℝ := if i = k then 1 else if k < i then u i k / u k k else 0

/-- entries on or below the diagonal are those of `L D Lᵀ`; the last pivot may be zero -/
theorem product_lower (hE : Elim a u s e) (hp : ∀ k, s ≤ k → k + 1 < e → u k k ≠ 0) (i j : ℕ) (hj : s ≤ j) (hji : j ≤ i)
    (hi : i < e) : ∑ k ∈ Ico s e, low u i k * u k k * low u j k = a i j := by
  have h1 : ∑ k ∈ Ico s e, low u i k * u k k * low u j k = ∑ k ∈ Ico s (j + 1), low u i k * u k k * low u j k := by
    symm
    apply sum_subset
    · intro x hx; simp only [mem_Ico] at hx ⊢; omega
    · intro x hx hx'
      simp only [mem_Ico] at hx hx'
      have : low u j x = 0 := by
        unfold low; rw [if_neg (by omega), if_neg (by omega)]
      rw [this]; ring
  rw [h1, sum_Ico_succ_top hj]
  have hlast : low u i j * u j j * low u j j = u i j := by
    have h2 : low u j j = 1 := by unfold low; rw [if_pos rfl]
    rcases Nat.eq_or_lt_of_le hji with h | h
    · subst h; rw [h2]; ring
    · have : low u i j = u i j / u j j := by unfold low; rw [if_neg (by omega), if_pos h]
      rw [this, h2]
      have := hp j hj (by omega)
      field_simp
  rw [hlast, hE i j hj hji hi]
  have : ∑ k ∈ Ico s j, low u i k * u k k * low u j k = ∑ k ∈ Ico s j, u i k / u k k * u j k := by
    refine sum_congr rfl fun k hk => ?_
    simp only [mem_Ico] at hk
    have e1 : low u i k = u i k / u k k := by unfold low; rw [if_neg (by omega), if_pos (by omega)]
    have e2 : low u j k = u j k / u k k := by unfold low; rw [if_neg (by omega), if_pos (by omega)]
    have := hp k hk.1 (by omega)
    rw [e1, e2]; field_simp
  rw [this]; ring

theorem product (hE : Elim a u s e) (hp : ∀ k, s ≤ k → k + 1 < e → u k k ≠ 0) (hs : ∀ i j, a i j = a j i) (i j : ℕ)
    (hi : s ≤ i) (hj : s ≤ j) (hi' : i < e) (hj' : j < e) : ∑ k ∈ Ico s e, low u i k * u k k * low u j k = a i j := by
  rcases Nat.le_total j i with h | h
  · exact product_lower a u s e hE hp i j hj h hi'
  · rw [hs i j, ← product_lower a u s e hE hp j i hi h hj']
    exact sum_congr rfl fun k _ => by ring

/-- the quadratic form of `a` on the block as a sum of squares -/
theorem quadratic_form (hE : Elim a u s e) (hp : ∀ k, s ≤ k → k + 1 < e → u k k ≠ 0) (hs : ∀ i j, a i j = a j i)
    (x : ℕ → ℝ) : ∑ i ∈ Ico s e, ∑ j ∈ Ico s e, x i * a i j * x j =
      ∑ k ∈ Ico s e, u k k * (∑ i ∈ Ico s e, low u i k * x i) ^ 2 := by
  have h : ∀ i ∈ Ico s e, ∀ j ∈ Ico s e, x i * a i j * x j = ∑ k ∈ Ico s e, u k k * (low u i k * x i) * (low u j k * x j) := by
    intro i hi j hj
    simp only [mem_Ico] at hi hj
    rw [← product a u s e hE hp hs i j hi.1 hj.1 hi.2 hj.2, mul_sum, sum_mul]
    exact sum_congr rfl fun k _ => by ring
  calc ∑ i ∈ Ico s e, ∑ j ∈ Ico s e, x i * a i j * x j
      = ∑ i ∈ Ico s e, ∑ j ∈ Ico s e, ∑ k ∈ Ico s e, u k k * (low u i k * x i) * (low u j k * x j) :=
        sum_congr rfl fun i hi => sum_congr rfl fun j hj => h i hi j hj
    _ = ∑ i ∈ Ico s e, ∑ k ∈ Ico s e, ∑ j ∈ Ico s e, u k k * (low u i k * x i) * (low u j k * x j) :=
        sum_congr rfl fun i _ => sum_comm
    _ = ∑ k ∈ Ico s e, ∑ i ∈ Ico s e, ∑ j ∈ Ico s e, u k k * (low u i k * x i) * (low u j k * x j) := sum_comm
    _ = ∑ k ∈ Ico s e, u k k * (∑ i ∈ Ico s e, low u i k * x i) ^ 2 := by
        refine sum_congr rfl fun k _ => ?_
        rw [sq, sum_mul_sum, mul_sum]
        refine sum_congr rfl fun i _ => ?_
        rw [mul_sum]
        exact sum_congr rfl fun j _ => by ring

/-- C12: all pivots positive implies positive definite -/
theorem posdef_of_pivots (n : ℕ) (hE : Elim a u 0 n) (hs : ∀ i j, a i j = a j i) (hp : ∀ k < n, 0 < u k k)
    (x : ℕ → ℝ) (hx : ∃ i < n, x i ≠ 0) : 0 < ∑ i ∈ Ico 0 n, ∑ j ∈ Ico 0 n, x i * a i j * x j := by
  rw [quadratic_form a u 0 n hE (fun k _ h => (hp k (by omega)).ne') hs x]
  -- the last nonzero entry of x
  classical
  obtain ⟨i0, hi0, hxi0⟩ := hx
  let T := (range n).filter (fun i => x i ≠ 0)
  have hT : T.Nonempty := ⟨i0, by simp [T, hi0, hxi0]⟩
  obtain ⟨m, hm, hmax⟩ := T.exists_max_image id hT
  have hm' : m < n ∧ x m ≠ 0 := by simpa [T] using hm
  have hval : ∑ i ∈ Ico 0 n, low u i m * x i = x m := by
    rw [sum_eq_single m]
    · have : low u m m = 1 := by unfold low; rw [if_pos rfl]
      rw [this]; ring
    · intro b hb hbm
      simp only [mem_Ico] at hb
      rcases Nat.lt_or_ge b m with h | h
      · have : low u b m = 0 := by unfold low; rw [if_neg hbm, if_neg (by omega)]
        rw [this]; ring
      · have hx0 : x b = 0 := by
          by_contra hne
          have := hmax b (by simp [T, hb.2, hne])
          simp at this
          omega
        rw [hx0]; ring
    · intro h; simp only [mem_Ico] at h; omega
  have hnn : ∀ k ∈ Ico 0 n, 0 ≤ u k k * (∑ i ∈ Ico 0 n, low u i k * x i) ^ 2 := by
    intro k hk
    simp only [mem_Ico] at hk
    exact mul_nonneg (hp k hk.2).le (sq_nonneg _)
  have hmem : m ∈ Ico 0 n := by simp; exact hm'.1
  refine lt_of_lt_of_le ?_ (single_le_sum hnn hmem)
  rw [hval]
  exact mul_pos (hp m hm'.1) (by have := hm'.2; positivity)

/-- C13: the witness vector has curvature equal to the last pivot of the block -/
theorem witness_value (hE : Elim a u s e) (hse : s < e) (hp : ∀ k, s ≤ k → k + 1 < e → u k k ≠ 0) (hs : ∀ i j, a i j = a j i)
    (v : ℕ → ℝ) (hv1 : v (e - 1) = 1)
    (hv : ∀ c, s ≤ c → c + 1 < e → v c = -∑ r ∈ Ico (c + 1) e, u r c / u c c * v r) :
    ∑ i ∈ Ico s e, ∑ j ∈ Ico s e, v i * a i j * v j = u (e - 1) (e - 1) := by
  rw [quadratic_form a u s e hE hp hs v]
  have hcol : ∀ c, s ≤ c → c < e → ∑ i ∈ Ico s e, low u i c * v i = v c + ∑ r ∈ Ico (c + 1) e, u r c / u c c * v r := by
    intro c hc hce
    have h1 : ∑ i ∈ Ico s e, low u i c * v i = ∑ i ∈ Ico c e, low u i c * v i := by
      symm
      apply sum_subset
      · intro x hx; simp only [mem_Ico] at hx ⊢; omega
      · intro x hx hx'
        simp only [mem_Ico] at hx hx'
        have : low u x c = 0 := by unfold low; rw [if_neg (by omega), if_neg (by omega)]
        rw [this]; ring
    rw [h1, sum_eq_sum_Ico_succ_bot hce]
    have h2 : low u c c = 1 := by unfold low; rw [if_pos rfl]
    rw [h2, one_mul]
    congr 1
    refine sum_congr rfl fun r hr => ?_
    simp only [mem_Ico] at hr
    have : low u r c = u r c / u c c := by unfold low; rw [if_neg (by omega), if_pos (by omega)]
    rw [this]
  rw [sum_eq_single (e - 1)]
  · rw [hcol (e - 1) (by omega) (by omega), hv1]
    have : Ico (e - 1 + 1) e = ∅ := by ext x; simp; omega
    rw [this]; simp
  · intro b hb hbe
    simp only [mem_Ico] at hb
    rw [hcol b hb.1 hb.2, hv b hb.1 (by omega)]
    simp
  · intro h; simp only [mem_Ico] at h; omega

/-- C12: a pivot that is not positive implies not positive definite (a block that starts at row 0 and ends at `e ≤ n`) -/
theorem not_posdef_of_pivot (n : ℕ) (he : e ≤ n) (hE : Elim a u s e) (hse : s < e)
    (hp : ∀ k, s ≤ k → k + 1 < e → u k k ≠ 0) (hs : ∀ i j, a i j = a j i) (hbad : u (e - 1) (e - 1) ≤ 0)
    (v : ℕ → ℝ) (hv1 : v (e - 1) = 1) (hv : ∀ c, s ≤ c → c + 1 < e → v c = -∑ r ∈ Ico (c + 1) e, u r c / u c c * v r)
    (hout : ∀ i, ¬ (s ≤ i ∧ i < e) → v i = 0) :
    (∃ i < n, v i ≠ 0) ∧ ∑ i ∈ Ico 0 n, ∑ j ∈ Ico 0 n, v i * a i j * v j ≤ 0 := by
  refine ⟨⟨e - 1, by omega, by rw [hv1]; norm_num⟩, ?_⟩
  have inner : ∀ i, ∑ j ∈ Ico 0 n, v i * a i j * v j = ∑ j ∈ Ico s e, v i * a i j * v j := by
    intro i
    symm
    apply sum_subset
    · intro x hx; simp only [mem_Ico] at hx ⊢; omega
    · intro x _ hx'
      simp only [mem_Ico] at hx'
      rw [hout x (by omega)]; ring
  have outer : ∑ i ∈ Ico 0 n, ∑ j ∈ Ico 0 n, v i * a i j * v j = ∑ i ∈ Ico s e, ∑ j ∈ Ico s e, v i * a i j * v j := by
    simp only [inner]
    symm
    apply sum_subset
    · intro x hx; simp only [mem_Ico] at hx ⊢; omega
    · intro x _ hx'
      simp only [mem_Ico] at hx'
      rw [hout x (by omega)]; simp
  rw [outer, witness_value a u s e hE hse hp hs v hv1 hv]
  exact hbad

/-- C12: `R i j = sqrt (u i i) * l j i` satisfies `Rᵀ R = A` -/
theorem sqrt_factor (n : ℕ) (hE : Elim a u 0 n) (hs : ∀ i j, a i j = a j i) (hp : ∀ k < n, 0 < u k k) (i j : ℕ)
    (hi : i < n) (hj : j < n) :
    ∑ k ∈ Ico 0 n, (low u i k * Real.sqrt (u k k)) * (low u j k * Real.sqrt (u k k)) = a i j := by
  rw [← product a u 0 n hE (fun k _ h => (hp k (by omega)).ne') hs i j (by omega) (by omega) hi hj]
  refine sum_congr rfl fun k hk => ?_
  simp only [mem_Ico] at hk
  have := Real.mul_self_sqrt (hp k hk.2).le
  calc (low u i k * Real.sqrt (u k k)) * (low u j k * Real.sqrt (u k k))
      = low u i k * (Real.sqrt (u k k) * Real.sqrt (u k k)) * low u j k := by ring
    _ = _ := by rw [this]

/-- C15: a cut built from the quadratic forms of a vector of nonpositive curvature keeps every feasible point.
`A(x) = B - ∑ x_k F_k` -/
theorem lmi_cut (m : ℕ) (x y g f : ℕ → ℝ) (b ep : ℝ) (hg : ∀ k < m, g k = f k)
    (hx : b - ∑ k ∈ range m, f k * x k ≤ -ep) (hy : 0 ≤ b - ∑ k ∈ range m, f k * y k) :
    ∑ k ∈ range m, g k * (y k - x k) + ep ≤ 0 := by
  have : ∑ k ∈ range m, g k * (y k - x k) = ∑ k ∈ range m, f k * y k - ∑ k ∈ range m, f k * x k := by
    rw [← sum_sub_distrib]
    exact sum_congr rfl fun k hk => by rw [hg k (by simpa using hk)]; ring
  rw [this]; linarith

/-- C15: the quadratic form of the matrix combination is the combination of the quadratic forms -/
theorem quad_of_combination (m p q : ℕ) (F : ℕ → ℕ → ℕ → ℝ) (B : ℕ → ℕ → ℝ) (x v : ℕ → ℝ) :
    ∑ i ∈ Ico p q, ∑ j ∈ Ico p q, v i * (B i j - ∑ k ∈ range m, F k i j * x k) * v j =
      ∑ i ∈ Ico p q, ∑ j ∈ Ico p q, v i * B i j * v j -
        ∑ k ∈ range m, (∑ i ∈ Ico p q, v i * ∑ j ∈ Ico p q, F k i j * v j) * x k := by
  have e : ∑ k ∈ range m, (∑ i ∈ Ico p q, v i * ∑ j ∈ Ico p q, F k i j * v j) * x k =
      ∑ i ∈ Ico p q, ∑ j ∈ Ico p q, v i * (∑ k ∈ range m, F k i j * x k) * v j := by
    simp only [mul_sum, sum_mul]
    rw [sum_comm]
    refine sum_congr rfl fun i _ => ?_
    rw [sum_comm]
    exact sum_congr rfl fun j _ => sum_congr rfl fun k _ => by ring
  rw [e, ← sum_sub_distrib]
  refine sum_congr rfl fun i _ => ?_
  rw [← sum_sub_distrib]
  exact sum_congr rfl fun j _ => by ring

#print axioms posdef_of_pivots
#print axioms witness_value
#print axioms not_posdef_of_pivot
#print axioms sqrt_factor
#print axioms lmi_cut
#print axioms quad_of_combination
