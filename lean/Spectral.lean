import Mathlib.Analysis.Fourier.ZMod

/-! Kolmogorov's spectral factorisation on a finite grid (C22): from the closed formulas of the contract to the property. -/

open ZMod Finset ComplexConjugate
open scoped ZMod

/-- the discrete Hilbert transform (odd multiplier) of an even sequence is odd -/
theorem phase_odd {m : ℕ} [NeZero m] (α s : ZMod m → ℂ) (hα : ∀ k, α (-k) = α k) (hs : ∀ l, s (-l) = -s l) (k : ZMod m) :
    (𝓕⁻ (fun l => Complex.I * s l * 𝓕 α l)) (-k) = -(𝓕⁻ (fun l => Complex.I * s l * 𝓕 α l)) k := by
  have hF : ∀ l, 𝓕 α (-l) = 𝓕 α l := by
    intro l
    rw [ZMod.dft_apply, ZMod.dft_apply]
    refine Fintype.sum_equiv (Equiv.neg _) _ _ ?_
    intro j
    simp [hα]
  rw [ZMod.invDFT_apply, ZMod.invDFT_apply, ← smul_neg, ← Finset.sum_neg_distrib]
  congr 1
  refine Fintype.sum_equiv (Equiv.neg _) _ _ ?_
  intro l
  simp [hs, hF]

/-- a conjugate-symmetric spectrum belongs to a real sequence: taking the real part of its inverse transform loses nothing -/
theorem real_part_exact {n : ℕ} [NeZero n] (H : ZMod n → ℂ) (hH : ∀ j, H (-j) = conj (H j)) :
    𝓕 (fun t => (((𝓕⁻ H t).re : ℝ) : ℂ)) = H := by
  have hr : (fun t => (((𝓕⁻ H t).re : ℝ) : ℂ)) = 𝓕⁻ H := by
    funext t
    apply Complex.conj_eq_iff_re.mp
    rw [ZMod.invDFT_apply, smul_eq_mul, map_mul, map_sum]
    congr 1
    · simp
    · refine Fintype.sum_equiv (Equiv.neg _) _ _ ?_
      intro j
      simp [hH, AddChar.map_neg_eq_conj]
  rw [hr]
  exact ZMod.dft.apply_symm_apply H

/-- the samples exp(α + iφ), α even and φ odd, are conjugate symmetric and have squared magnitude exp(2α) -/
theorem spectrum_symmetric {n : ℕ} [NeZero n] (a p : ZMod n → ℝ) (ha : ∀ j, a (-j) = a j) (hp : ∀ j, p (-j) = -p j) (j : ZMod n) :
    Complex.exp ((a (-j) : ℂ) + Complex.I * (p (-j) : ℂ)) = conj (Complex.exp ((a j : ℂ) + Complex.I * (p j : ℂ))) := by
  rw [← Complex.exp_conj]
  simp [ha, hp]

theorem spectrum_magnitude (a p R : ℝ) (hR : 0 < R) (ha : a = 1 / 2 * Real.log R) :
    Complex.normSq (Complex.exp ((a : ℂ) + Complex.I * (p : ℂ))) = R := by
  rw [Complex.normSq_eq_norm_sq, Complex.norm_exp]
  simp
  rw [← Real.exp_nat_mul, ha]
  simp
  exact Real.exp_log hR

/-- C22: the n-point transform of the result h has squared magnitude R at every one of the n frequencies -/
theorem result_magnitude {n : ℕ} [NeZero n] (R p : ZMod n → ℝ) (hpos : ∀ j, 0 < R j) (heven : ∀ j, R (-j) = R j) (hp : ∀ j, p (-j) = -p j)
    (h : ZMod n → ℝ)
    (hh : ∀ t, h t = (𝓕⁻ (fun j => Complex.exp (((1 / 2 * Real.log (R j) : ℝ) : ℂ) + Complex.I * (p j : ℂ))) t).re) (j : ZMod n) :
    Complex.normSq (𝓕 (fun t => ((h t : ℝ) : ℂ)) j) = R j := by
  have e : (fun t => ((h t : ℝ) : ℂ)) = fun t => (((𝓕⁻ (fun j => Complex.exp (((1 / 2 * Real.log (R j) : ℝ) : ℂ) + Complex.I * (p j : ℂ))) t).re : ℝ) : ℂ) := by
    funext t; rw [hh]
  rw [e, real_part_exact]
  · exact spectrum_magnitude _ _ _ (hpos j) rfl
  · exact fun j => spectrum_symmetric (fun j => 1 / 2 * Real.log (R j)) p (fun j => by simp [heven]) hp j

#print axioms phase_odd
#print axioms real_part_exact
#print axioms spectrum_symmetric
#print axioms spectrum_magnitude
#print axioms result_magnitude
