import Mathlib.LinearAlgebra.Matrix.PosDef
import Mathlib.LinearAlgebra.Matrix.SchurComplement
import Mathlib.Algebra.Order.Ring.Pow
import Mathlib.Tactic

/-! Lemmas that lift the function contracts of `Ell` and `EllCalc` to the properties C01, C02, C03.

`M` is the stored shape, `N` its inverse, `κ` the scale, `g` the gradient, `ω = gᵀ M g`, `q = M g`.
The ellipsoid is `{x : (x-c)ᵀ N (x-c) ≤ κ}`.  The contracts give
`c' = c - (ρ/ω) q`,  `κ' M' = δ κ (M - (σ/ω) q qᵀ)`. -/

open Matrix

set_option linter.unusedSectionVars false

variable {n : Type*} [Fintype n] [DecidableEq n]

/-- Sherman–Morrison: the inverse of the updated shape. -/
theorem updated_inverse (M N : Matrix n n ℝ) (g : n → ℝ) (σ ω : ℝ) (hMN : M * N = 1)
    (hMs : M.transpose = M) (hω : ω = g ⬝ᵥ (M *ᵥ g)) (hω0 : ω ≠ 0) (hσ : σ ≠ 1) :
    (M - (σ / ω) • vecMulVec (M *ᵥ g) (M *ᵥ g)) * (N + (σ / ((1 - σ) * ω)) • vecMulVec g g) = 1 := by
  have h1 : vecMulVec (M *ᵥ g) (M *ᵥ g) * N = vecMulVec (M *ᵥ g) g := by
    rw [vecMulVec_mul]
    congr 1
    have : M *ᵥ g = g ᵥ* M := by
      rw [← mulVec_transpose, hMs]
    rw [this, vecMul_vecMul, hMN, vecMul_one]
  have h2 : M * vecMulVec g g = vecMulVec (M *ᵥ g) g := by
    rw [mul_vecMulVec]
  have h3 : vecMulVec (M *ᵥ g) (M *ᵥ g) * vecMulVec g g = ω • vecMulVec (M *ᵥ g) g := by
    rw [vecMulVec_mul_vecMulVec, dotProduct_comm, ← hω]
    ext i j; simp [vecMulVec_apply]; ring
  have h0 : (1 - σ) ≠ 0 := sub_ne_zero.mpr (Ne.symm hσ)
  rw [sub_mul, mul_add, mul_add, hMN]
  simp only [smul_mul_assoc, mul_smul_comm, h1, h2, h3, smul_smul]
  have hc : σ / ((1 - σ) * ω) - σ / ω - (σ / ω) * ((σ / ((1 - σ) * ω)) * ω) = 0 := by
    field_simp; ring
  ext i j
  have h5 : (σ / ((1 - σ) * ω) - σ / ω - (σ / ω) * ((σ / ((1 - σ) * ω)) * ω)) * vecMulVec (M *ᵥ g) g i j = 0 := by
    rw [hc, zero_mul]
  simp only [Matrix.add_apply, Matrix.sub_apply, Matrix.smul_apply, smul_eq_mul]
  linarith

/-- C01: every point of the old ellipsoid that satisfies the cut is in the new one. -/
theorem containment (N : Matrix n n ℝ) (M : Matrix n n ℝ) (hNM : N * M = 1) (hNs : N.transpose = N)
    (hN : ∀ z : n → ℝ, 0 ≤ z ⬝ᵥ (N *ᵥ z))
    (g c x : n → ℝ) (ω κ ρ σ δ lo hi : ℝ)
    (hω : ω = g ⬝ᵥ (M *ᵥ g)) (hω0 : 0 < ω) (hσ1 : σ < 1)
    (scalar : ∀ s : ℝ, lo ≤ s → s ≤ hi → s * s ≤ κ * ω →
      (1 - σ) * (κ * ω * (1 - δ) + 2 * ρ * s + ρ * ρ) + σ * (s + ρ) * (s + ρ) ≤ 0)
    (hx : (x - c) ⬝ᵥ (N *ᵥ (x - c)) ≤ κ) (hlo : lo ≤ g ⬝ᵥ (x - c)) (hhi : g ⬝ᵥ (x - c) ≤ hi) :
    let c' := c - (ρ / ω) • (M *ᵥ g)
    let N' := N + (σ / ((1 - σ) * ω)) • vecMulVec g g
    (x - c') ⬝ᵥ (N' *ᵥ (x - c')) ≤ δ * κ := by
  intro c' N'
  set z := x - c with hz
  set s := g ⬝ᵥ z with hs
  set q := M *ᵥ g with hq
  have hNq : N *ᵥ q = g := by rw [hq, mulVec_mulVec, hNM, one_mulVec]
  have hzNq : z ⬝ᵥ (N *ᵥ q) = s := by rw [hNq, dotProduct_comm]
  have hqNz : q ⬝ᵥ (N *ᵥ z) = s := by
    rw [dotProduct_mulVec, ← mulVec_transpose, hNs, hNq]
  have hqNq : q ⬝ᵥ (N *ᵥ q) = ω := by rw [hNq, dotProduct_comm, hω]
  have hx' : x - c' = z + (ρ / ω) • q := by
    simp only [c', z]; abel
  -- Cauchy–Schwarz at (z, q)
  have hcs : s * s ≤ κ * ω := by
    have h := hN (ω • z - s • q)
    simp only [mulVec_sub, mulVec_smul, dotProduct_sub, sub_dotProduct, dotProduct_smul, smul_dotProduct, smul_eq_mul,
      hzNq, hqNz, hqNq] at h
    have h2 : ω * (ω * (z ⬝ᵥ N *ᵥ z) - s * s) ≥ 0 := by nlinarith
    have h3 : 0 ≤ ω * (z ⬝ᵥ N *ᵥ z) - s * s := by
      by_contra hneg
      push Not at hneg
      nlinarith
    nlinarith
  have hsc := scalar s hlo hhi hcs
  have hgz : g ⬝ᵥ (z + (ρ / ω) • q) = s + ρ := by
    rw [dotProduct_add, dotProduct_smul, smul_eq_mul, ← hω, ← hs]
    field_simp
  have hval : (x - c') ⬝ᵥ (N' *ᵥ (x - c')) =
      (z ⬝ᵥ (N *ᵥ z)) + (2 * ρ * s + ρ * ρ) / ω + σ / ((1 - σ) * ω) * ((s + ρ) * (s + ρ)) := by
    rw [hx']
    have hrank : (z + (ρ / ω) • q) ⬝ᵥ (vecMulVec g g *ᵥ (z + (ρ / ω) • q)) = (s + ρ) * (s + ρ) := by
      rw [vecMulVec_mulVec]
      simp only [dotProduct_smul, op_smul_eq_smul, smul_eq_mul]
      rw [hgz, dotProduct_comm _ g, hgz]
    simp only [N', add_mulVec, smul_mulVec, dotProduct_add (z + (ρ / ω) • q), dotProduct_smul, smul_eq_mul, hrank]
    simp only [mulVec_add, mulVec_smul, dotProduct_add, add_dotProduct, dotProduct_smul, smul_dotProduct, smul_eq_mul,
      hzNq, hqNz, hqNq]
    field_simp
    ring
  rw [hval]
  have h1 : 0 < 1 - σ := by linarith
  have hpos : 0 < (1 - σ) * ω := mul_pos h1 hω0
  have key : (κ - δ * κ + (2 * ρ * s + ρ * ρ) / ω + σ / ((1 - σ) * ω) * ((s + ρ) * (s + ρ))) * ((1 - σ) * ω) ≤ 0 := by
    have : (κ - δ * κ + (2 * ρ * s + ρ * ρ) / ω + σ / ((1 - σ) * ω) * ((s + ρ) * (s + ρ))) * ((1 - σ) * ω) =
        (1 - σ) * (κ * ω * (1 - δ) + 2 * ρ * s + ρ * ρ) + σ * (s + ρ) * (s + ρ) := by
      field_simp; ring
    rw [this]; exact hsc
  have : κ - δ * κ + (2 * ρ * s + ρ * ρ) / ω + σ / ((1 - σ) * ω) * ((s + ρ) * (s + ρ)) ≤ 0 := by
    by_contra hneg
    push Not at hneg
    have := mul_pos hneg hpos
    linarith
  linarith

/-- C03: the updated shape is symmetric. -/
theorem updated_symm (M : Matrix n n ℝ) (q : n → ℝ) (a : ℝ) (hMs : M.transpose = M) :
    (M - a • vecMulVec q q).transpose = M - a • vecMulVec q q := by
  rw [transpose_sub, transpose_smul, transpose_vecMulVec, hMs]

/-- C03: the updated shape is positive definite. -/
theorem updated_posdef (M : Matrix n n ℝ) (hMs : M.transpose = M) (hM : ∀ z : n → ℝ, z ≠ 0 → 0 < z ⬝ᵥ (M *ᵥ z))
    (g : n → ℝ) (σ ω : ℝ) (hω : ω = g ⬝ᵥ (M *ᵥ g)) (hω0 : 0 < ω) (hσ0 : 0 ≤ σ) (hσ1 : σ < 1) (z : n → ℝ) (hz : z ≠ 0) :
    0 < z ⬝ᵥ ((M - (σ / ω) • vecMulVec (M *ᵥ g) (M *ᵥ g)) *ᵥ z) := by
  set q := M *ᵥ g with hq
  have hnn : ∀ y : n → ℝ, 0 ≤ y ⬝ᵥ (M *ᵥ y) := by
    intro y
    by_cases h : y = 0
    · simp [h]
    · exact (hM y h).le
  have hgz : g ⬝ᵥ (M *ᵥ z) = q ⬝ᵥ z := by
    rw [hq, dotProduct_mulVec, ← mulVec_transpose, hMs]
  have hzg : z ⬝ᵥ q = q ⬝ᵥ z := dotProduct_comm _ _
  have hcs : (q ⬝ᵥ z) * (q ⬝ᵥ z) ≤ ω * (z ⬝ᵥ (M *ᵥ z)) := by
    have h := hnn (ω • z - (q ⬝ᵥ z) • g)
    simp only [mulVec_sub, mulVec_smul, dotProduct_sub, sub_dotProduct, dotProduct_smul, smul_dotProduct, smul_eq_mul,
      ← hq, hgz, hzg, ← hω] at h
    have h3 : 0 ≤ ω * (ω * (z ⬝ᵥ (M *ᵥ z)) - (q ⬝ᵥ z) * (q ⬝ᵥ z)) := by nlinarith
    by_contra hneg
    push Not at hneg
    nlinarith
  have hval : z ⬝ᵥ ((M - (σ / ω) • vecMulVec q q) *ᵥ z) = z ⬝ᵥ (M *ᵥ z) - (σ / ω) * ((q ⬝ᵥ z) * (q ⬝ᵥ z)) := by
    rw [sub_mulVec, dotProduct_sub, smul_mulVec, dotProduct_smul, vecMulVec_mulVec]
    simp only [op_smul_eq_smul, dotProduct_smul, smul_eq_mul, hzg]
  rw [hval]
  have hp := hM z hz
  have h1 : (σ / ω) * ((q ⬝ᵥ z) * (q ⬝ᵥ z)) ≤ (σ / ω) * (ω * (z ⬝ᵥ (M *ᵥ z))) :=
    mul_le_mul_of_nonneg_left hcs (by positivity)
  have h2 : (σ / ω) * (ω * (z ⬝ᵥ (M *ᵥ z))) = σ * (z ⬝ᵥ (M *ᵥ z)) := by field_simp
  nlinarith

/-- C02: the determinant of the updated shape. -/
theorem updated_det (M : Matrix n n ℝ) (g : n → ℝ) (σ ω : ℝ)
    (hω : ω = g ⬝ᵥ (M *ᵥ g)) (hω0 : ω ≠ 0) :
    (M - (σ / ω) • vecMulVec (M *ᵥ g) (M *ᵥ g)).det = (1 - σ) * M.det := by
  have h : M - (σ / ω) • vecMulVec (M *ᵥ g) (M *ᵥ g) = M * (1 + vecMulVec (-(σ / ω) • g) (M *ᵥ g)) := by
    rw [mul_add, mul_one, mul_vecMulVec, mulVec_smul]
    ext i j
    simp [vecMulVec_apply]
    ring
  rw [h, det_mul]
  have : (1 + vecMulVec (-(σ / ω) • g) (M *ᵥ g)).det = 1 - σ := by
    rw [vecMulVec_eq Unit, det_one_add_replicateCol_mul_replicateRow]
    rw [dotProduct_smul, dotProduct_comm, ← hω, smul_eq_mul]
    field_simp
    ring
  rw [this]; ring

/-- C02: the squared volume ratio `δⁿ (1-σ)` is below one. -/
theorem volume_factor_lt_one (n : ℕ) (hn : 2 ≤ n) (σ δ : ℝ) (h0 : 0 < σ) (h1 : σ < 1) (hd : 0 < δ)
    (h : δ * (n - σ) ≤ n) : δ ^ n * (1 - σ) < 1 := by
  have hn' : (2 : ℝ) ≤ n := by exact_mod_cast hn
  have hnpos : (0 : ℝ) < n := by linarith
  set y : ℝ := σ / n with hy
  have hy0 : 0 < y := by positivity
  have hy1 : y < 1 := by rw [hy, div_lt_one hnpos]; linarith
  have hδy : δ * (1 - y) ≤ 1 := by
    have : δ * (1 - y) = δ * (n - σ) / n := by rw [hy]; field_simp
    rw [this, div_le_one hnpos]; exact h
  have hb : 1 - σ < (1 - y) ^ n := by
    obtain ⟨m, rfl⟩ : ∃ m, n = m + 1 := ⟨n - 1, by omega⟩
    have hm := one_add_mul_le_pow (a := -y) (by linarith) m
    have hm1 : (1 : ℝ) ≤ m := by have : 1 ≤ m := by omega
                                 exact_mod_cast this
    have hσ : σ = (m + 1) * y := by rw [hy]; push_cast; field_simp
    have e : (1 - y) ^ (m + 1) = (1 + -y) ^ m * (1 - y) := by rw [pow_succ]; ring_nf
    rw [e, hσ]
    have h2 : (1 + (m : ℝ) * -y) * (1 - y) ≤ (1 + -y) ^ m * (1 - y) :=
      mul_le_mul_of_nonneg_right hm (by linarith)
    have h3 : 0 < (m : ℝ) * (y * y) := by positivity
    nlinarith
  have hp : δ ^ n * (1 - y) ^ n ≤ 1 := by
    rw [← mul_pow]
    exact pow_le_one₀ (mul_nonneg hd.le (by linarith)) hδy
  have : δ ^ n * (1 - σ) < δ ^ n * (1 - y) ^ n := mul_lt_mul_of_pos_left hb (pow_pos hd n)
  linarith

#print axioms updated_inverse
#print axioms containment
#print axioms updated_posdef
#print axioms updated_det
#print axioms volume_factor_lt_one
