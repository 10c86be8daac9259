/- The factored rank-one update (P05): the entry-wise formulas that the obligations establish for
   ell_stable::update are the factors of the plain rank-one update, for every dimension.

   M = L^-T D L^-1 (L unit lower triangular), g = L p, omega = sum p_j^2 D_j.
   The code computes t_0 = (1-s) omega, t_(j+1) = t_j + s p_j^2 D_j, D'_j = D_j t_j / t_(j+1),
   L'(l,j) = L(l,j) + (s D_j p_j / t_(j+1)) (g_l - sum_(k<=j) L(l,k) p_k).
   Then L' D'^-1 L'^T = M^-1 + (s / ((1-s) omega)) g g^T, which is the inverse of
   M - (s/omega) (Mg)(Mg)^T. -/
import Mathlib

open Finset BigOperators

noncomputable section

variable (D p t : ℕ → ℝ) (s : ℝ)

/-- the factor L' = L N -/
def N (k j : ℕ) : ℝ := if k = j then 1 else if j < k then p k * (s * D j * p j / t (j + 1)) else 0

def D' (j : ℕ) : ℝ := D j * t j / t (j + 1)

structure Step : Prop where
  step : ∀ j, t (j + 1) = t j + s * (p j ^ 2 * D j)
  tne : ∀ j, t j ≠ 0
  dne : ∀ j, D j ≠ 0

variable {D p t s}

theorem tele (h : Step D p t s) (j : ℕ) :
    (s * D j * p j / t (j + 1)) ^ 2 / D' D t j = s * (1 / t j - 1 / t (j + 1)) := by
  have h1 := h.tne j
  have h2 := h.tne (j + 1)
  have h3 := h.dne j
  have hs : s * (p j ^ 2 * D j) = t (j + 1) - t j := by rw [h.step j]; ring
  unfold D'
  field_simp
  have : s ^ 2 * p j ^ 2 * D j = s * (t (j + 1) - t j) := by rw [← hs]; ring
  linear_combination this

theorem partial_sum (h : Step D p t s) (c : ℕ) :
    ∑ j ∈ range c, (s * D j * p j / t (j + 1)) ^ 2 / D' D t j = s * (1 / t 0 - 1 / t c) := by
  induction c with
  | zero => simp
  | succ c ih => rw [sum_range_succ, ih, tele h]; ring

theorem diag (h : Step D p t s) (a : ℕ) :
    1 / D' D t a = 1 / D a + s * p a ^ 2 / t a := by
  have h1 := h.tne a
  have h2 := h.tne (a + 1)
  have h3 := h.dne a
  unfold D'
  field_simp
  rw [h.step a]; ring

theorem off (h : Step D p t s) (b : ℕ) :
    (s * D b * p b / t (b + 1)) / D' D t b = s * p b / t b := by
  have h1 := h.tne b
  have h2 := h.tne (b + 1)
  have h3 := h.dne b
  unfold D'
  field_simp

/-- N D'^-1 N^T = D^-1 + (s/t_0) p p^T, entry by entry (b <= a) -/
theorem entries (h : Step D p t s) (a b : ℕ) (hab : b ≤ a) :
    ∑ j ∈ range (b + 1), N D p t s a j * (1 / D' D t j) * N D p t s b j
      = (if a = b then 1 / D a else 0) + s / t 0 * (p a * p b) := by
  rw [sum_range_succ]
  have hlow : ∑ j ∈ range b, N D p t s a j * (1 / D' D t j) * N D p t s b j
      = p a * p b * ∑ j ∈ range b, (s * D j * p j / t (j + 1)) ^ 2 / D' D t j := by
    rw [mul_sum]
    apply sum_congr rfl
    intro j hj
    have hj' : j < b := mem_range.mp hj
    unfold N
    rw [if_neg (by omega), if_pos (by omega), if_neg (by omega), if_pos hj']
    ring
  rw [hlow, partial_sum h]
  have hb : N D p t s b b = 1 := by unfold N; simp
  rw [hb]
  by_cases e : a = b
  · subst e
    rw [hb, if_pos rfl, diag h]
    ring
  · have ha : N D p t s a b = p a * (s * D b * p b / t (b + 1)) := by
      unfold N; rw [if_neg (by omega), if_pos (by omega)]
    rw [ha, if_neg e]
    have := off h b
    calc p a * p b * (s * (1 / t 0 - 1 / t b)) + p a * (s * D b * p b / t (b + 1)) * (1 / D' D t b) * 1
        = p a * p b * (s * (1 / t 0 - 1 / t b)) + p a * ((s * D b * p b / t (b + 1)) / D' D t b) := by ring
      _ = 0 + s / t 0 * (p a * p b) := by rw [this]; ring

/-- L' = L N: the column j of L' is that of L plus beta_j times what is left of g after j+1 columns -/
theorem column (n : ℕ) (L : ℕ → ℕ → ℝ) (g : ℕ → ℝ) (hg : ∀ l, l < n → g l = ∑ k ∈ range n, L l k * p k)
    (l j : ℕ) (hl : l < n) (hj : j < n) :
    ∑ k ∈ range n, L l k * N D p t s k j
      = L l j + (s * D j * p j / t (j + 1)) * (g l - ∑ k ∈ range (j + 1), L l k * p k) := by
  rw [hg l hl]
  have hsplit : ∀ f : ℕ → ℝ, ∑ k ∈ range n, f k = ∑ k ∈ range (j + 1), f k + ∑ k ∈ Ico (j + 1) n, f k := by
    intro f; rw [sum_range_add_sum_Ico f (by omega)]
  rw [hsplit (fun k => L l k * N D p t s k j), hsplit (fun k => L l k * p k), sum_range_succ]
  have h1 : ∑ k ∈ range j, L l k * N D p t s k j = 0 := by
    apply sum_eq_zero
    intro k hk
    have : k < j := mem_range.mp hk
    unfold N
    rw [if_neg (by omega), if_neg (by omega), mul_zero]
  have h2 : ∑ k ∈ Ico (j + 1) n, L l k * N D p t s k j
      = (s * D j * p j / t (j + 1)) * ∑ k ∈ Ico (j + 1) n, L l k * p k := by
    rw [mul_sum]
    apply sum_congr rfl
    intro k hk
    have := (mem_Ico.mp hk).1
    unfold N
    rw [if_neg (by omega), if_pos (by omega)]
    ring
  have h3 : N D p t s j j = 1 := by unfold N; simp
  rw [h1, h2, h3]
  ring

/-- D^-1 + (s/((1-s) omega)) p p^T is the inverse of D - (s/omega) (Dp)(Dp)^T -/
theorem sherman_morrison (n : ℕ) (om : ℝ) (hom : om = ∑ k ∈ range n, p k ^ 2 * D k) (h0 : om ≠ 0)
    (hs : 1 - s ≠ 0) (hd : ∀ j, D j ≠ 0) (a b : ℕ) (ha : a < n) (hb : b < n) :
    ∑ k ∈ range n, ((if a = k then D a else 0) - s / om * (D a * p a) * (D k * p k))
        * ((if k = b then 1 / D b else 0) + s / ((1 - s) * om) * (p k * p b))
      = if a = b then 1 else 0 := by
  have e1 : ∀ k, ((if a = k then D a else 0) - s / om * (D a * p a) * (D k * p k))
        * ((if k = b then 1 / D b else 0) + s / ((1 - s) * om) * (p k * p b))
      = (if a = k then (D a * (if k = b then 1 / D b else 0) + D a * (s / ((1 - s) * om) * (p k * p b))) else 0)
        - (if k = b then s / om * (D a * p a) * (D k * p k) * (1 / D b) else 0)
        - s / om * (D a * p a) * (s / ((1 - s) * om)) * p b * (p k ^ 2 * D k) := by
    intro k; split_ifs <;> ring
  rw [sum_congr rfl (fun k _ => e1 k), sum_sub_distrib, sum_sub_distrib, ← mul_sum, ← hom]
  rw [sum_ite_eq (range n) a, sum_ite_eq' (range n) b, if_pos (mem_range.mpr ha), if_pos (mem_range.mpr hb)]
  have hdb := hd b
  have hda := hd a
  by_cases e : a = b
  · subst e
    rw [if_pos rfl, if_pos rfl]
    field_simp
    ring
  · rw [if_neg e, if_neg e]
    field_simp
    ring

/-- the factored shape stays positive definite, and no divisor is zero -/
theorem positive (hstep : ∀ j, t (j + 1) = t j + s * (p j ^ 2 * D j)) (h0 : 0 < t 0) (hs : 0 ≤ s)
    (hd : ∀ j, 0 < D j) (j : ℕ) : 0 < t j ∧ 0 < D' D t j := by
  have ht : ∀ j, 0 < t j := by
    intro j
    induction j with
    | zero => exact h0
    | succ j ih =>
      rw [hstep j]
      have := mul_nonneg hs (mul_nonneg (sq_nonneg (p j)) (hd j).le)
      linarith
  exact ⟨ht j, div_pos (mul_pos (hd j) (ht j)) (ht (j + 1))⟩

end
