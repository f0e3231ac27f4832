import Mathlib
/-! Facts of real analysis that the engine uses as axioms (dv/prover.py names
them); checked by Lean against Mathlib. -/

theorem log_le_half (t : ℝ) (h : 1 ≤ t) : Real.log t ≤ (t - 1 / t) / 2 := by
  have h0 : 0 < t := by linarith
  have h1 : 0 ≤ Real.log t := Real.log_nonneg h
  have h2 := Real.self_le_sinh_iff.mpr h1
  rw [Real.sinh_log h0] at h2
  simpa [one_div] using h2
