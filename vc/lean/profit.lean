import Mathlib.Analysis.SpecialFunctions.Log.Basic
import Mathlib.Tactic

open Real

/-- log(t + v1 e^z1 + v2 e^z2) is at least its tangent at (y1, y2) -/
theorem profit_tangent (t v1 v2 y1 y2 z1 z2 : ℝ) (ht : 0 ≤ t) (hv1 : 0 < v1) (hv2 : 0 < v2) :
    log (t + v1 * exp y1 + v2 * exp y2)
      + v1 * exp y1 / (t + v1 * exp y1 + v2 * exp y2) * (z1 - y1)
      + v2 * exp y2 / (t + v1 * exp y1 + v2 * exp y2) * (z2 - y2)
      ≤ log (t + v1 * exp z1 + v2 * exp z2) := by
  set T := t + v1 * exp y1 + v2 * exp y2 with hT
  have hTpos : 0 < T := by positivity
  set m := v1 * exp y1 / T * (z1 - y1) + v2 * exp y2 / T * (z2 - y2) with hm
  have hmT : m * T = v1 * exp y1 * (z1 - y1) + v2 * exp y2 * (z2 - y2) := by
    rw [hm]; field_simp
  have e0 : exp m * (1 - m) ≤ 1 := by
    have h := add_one_le_exp (-m)
    have h2 : exp m * (-m + 1) ≤ exp m * exp (-m) := mul_le_mul_of_nonneg_left h (exp_pos m).le
    rw [← exp_add, add_neg_cancel, exp_zero] at h2
    linarith
  have key : ∀ a b : ℝ, exp m * (exp a * (1 + (b - a) - m)) ≤ exp b := by
    intro a b
    have h := add_one_le_exp (b - a - m)
    have h2 : exp (m + a) * (b - a - m + 1) ≤ exp (m + a) * exp (b - a - m) :=
      mul_le_mul_of_nonneg_left h (exp_pos _).le
    rw [← exp_add] at h2
    have h3 : m + a + (b - a - m) = b := by ring
    rw [h3, exp_add] at h2
    linarith
  have k1 := mul_le_mul_of_nonneg_left (key y1 z1) hv1.le
  have k2 := mul_le_mul_of_nonneg_left (key y2 z2) hv2.le
  have k0 := mul_le_mul_of_nonneg_left e0 ht
  have hsum : exp m * T ≤ t + v1 * exp z1 + v2 * exp z2 := by
    have : exp m * T = t * (exp m * (1 - m)) + v1 * (exp m * (exp y1 * (1 + (z1 - y1) - m)))
        + v2 * (exp m * (exp y2 * (1 + (z2 - y2) - m))) := by
      have : exp m * (m * T) = exp m * (v1 * exp y1 * (z1 - y1) + v2 * exp y2 * (z2 - y2)) := by rw [hmT]
      rw [hT] at this ⊢
      linarith [this, mul_comm (exp m) m]
    rw [this]; linarith
  have hl := log_le_log (by positivity) hsum
  rw [log_mul (exp_pos m).ne' hTpos.ne', log_exp] at hl
  linarith

/-- the objective cut of the profit oracles: with the tangent of log(t + v x) - log pA - a y at (y1, y2),
    every input within reach of profit t satisfies the cut -/
theorem profit_cut (L t v1 v2 a1 a2 y1 y2 z1 z2 : ℝ) (ht : 0 ≤ t) (hv1 : 0 < v1) (hv2 : 0 < v2)
    (hz : t ≤ exp (L + a1 * z1 + a2 * z2) - v1 * exp z1 - v2 * exp z2) :
    (v1 * exp y1 / (t + v1 * exp y1 + v2 * exp y2) - a1) * (z1 - y1)
      + (v2 * exp y2 / (t + v1 * exp y1 + v2 * exp y2) - a2) * (z2 - y2)
      + (log (t + v1 * exp y1 + v2 * exp y2) - (L + a1 * y1 + a2 * y2)) ≤ 0 := by
  have h := profit_tangent t v1 v2 y1 y2 z1 z2 ht hv1 hv2
  have hl : log (t + v1 * exp z1 + v2 * exp z2) ≤ L + a1 * z1 + a2 * z2 := by
    have := log_le_log (by positivity) (show t + v1 * exp z1 + v2 * exp z2 ≤ exp (L + a1 * z1 + a2 * z2) by linarith)
    rwa [log_exp] at this
  linarith

#print axioms profit_tangent
#print axioms profit_cut
