import Mathlib

/-!
Lemmas about policy cycles used for the negative-cycle search.

`x t` is the node the `t`-th edge of the answer enters, `w t` that edge's weight, `d t` the potential of
`x t` and `τ t` its time stamp; the edge starts at `x (t+1)`, and `x L = x 0`.
-/

/-- a walk that returns to its start only after `L` steps, each node determining the next, is simple -/
theorem first_return_simple {α : Type*} (L : ℕ) (x : ℕ → α) (hclose : x L = x 0)
    (hfirst : ∀ t, 0 < t → t < L → x t ≠ x 0)
    (hdet : ∀ i j, i < L → j < L → x i = x j → x (i + 1) = x (j + 1)) :
    ∀ i j, i < j → j < L → x i ≠ x j := by
  intro i j hij hj heq
  have key : ∀ k, j + k ≤ L → x (i + k) = x (j + k) := by
    intro k
    induction k with
    | zero => intro _; simpa using heq
    | succ k ih =>
      intro hk
      have h1 := ih (by omega)
      have h2 := hdet (i + k) (j + k) (by omega) (by omega) h1
      simpa [Nat.add_assoc] using h2
  have h := key (L - j) (by omega)
  have e : j + (L - j) = L := by omega
  rw [e, hclose] at h
  exact hfirst (i + (L - j)) (by omega) (by omega) h

/-- on a closed walk whose stamps are not all equal, some stamp increases -/
theorem stamp_increases (L : ℕ) (τ : ℕ → ℝ) (hclose : τ L = τ 0)
    (hne : ∃ i j, i < L ∧ j < L ∧ τ i ≠ τ j) : ∃ t, t < L ∧ τ t < τ (t + 1) := by
  by_contra hcon
  have hcon : ∀ t, t < L → τ (t + 1) ≤ τ t := by
    intro t ht
    by_contra h
    exact hcon ⟨t, ht, not_le.mp h⟩
  have down : ∀ a k, a + k ≤ L → τ (a + k) ≤ τ a := by
    intro a k
    induction k with
    | zero => intro _; simp
    | succ k ih =>
      intro hk
      have h1 := ih (by omega)
      have h2 := hcon (a + k) (by omega)
      have : τ (a + (k + 1)) ≤ τ (a + k) := by simpa [Nat.add_assoc] using h2
      linarith
  have same : ∀ a, a ≤ L → τ a = τ 0 := by
    intro a ha
    have h1 := down 0 a (by omega)
    have h2 := down a (L - a) (by omega)
    have e : a + (L - a) = L := by omega
    rw [e, hclose] at h2
    simp at h1
    linarith
  obtain ⟨i, j, hi, hj, hij⟩ := hne
  exact hij (by rw [same i hi.le, same j hj.le])

/-- a policy cycle has a strict edge -/
theorem cycle_strict {α : Type*} (L : ℕ) (hL : 1 ≤ L) (x : ℕ → α) (d τ : α → ℝ) (w : ℕ → ℝ)
    (hclose : x L = x 0) (hsimple : ∀ i j, i < j → j < L → x i ≠ x j)
    (hstrict : ∀ t, t < L → τ (x t) < τ (x (t + 1)) → d (x (t + 1)) + w t < d (x t))
    (hself : ∀ t, t < L → x t = x (t + 1) → w t < 0)
    (hdist : ∀ i j, i < L → j < L → τ (x i) = τ (x j) → x i = x j) :
    ∃ t, t < L ∧ d (x (t + 1)) + w t < d (x t) := by
  by_cases h1 : L = 1
  · subst h1
    refine ⟨0, by omega, ?_⟩
    have hx : x 0 = x (0 + 1) := by simpa using hclose.symm
    have := hself 0 (by omega) hx
    rw [← hx]
    linarith
  · have h01 : τ (x 0) ≠ τ (x 1) := fun h => hsimple 0 1 (by omega) (by omega) (hdist 0 1 (by omega) (by omega) h)
    obtain ⟨t, ht, hlt⟩ := stamp_increases L (fun t => τ (x t)) (by simp [hclose]) ⟨0, 1, by omega, by omega, h01⟩
    exact ⟨t, ht, hstrict t ht hlt⟩

/-- the answer's total weight is negative -/
theorem cycle_negative {α : Type*} (L : ℕ) (hL : 1 ≤ L) (x : ℕ → α) (d τ : α → ℝ) (w : ℕ → ℝ)
    (hclose : x L = x 0) (hsimple : ∀ i j, i < j → j < L → x i ≠ x j)
    (hslack : ∀ t, t < L → d (x (t + 1)) + w t ≤ d (x t))
    (hstrict : ∀ t, t < L → τ (x t) < τ (x (t + 1)) → d (x (t + 1)) + w t < d (x t))
    (hself : ∀ t, t < L → x t = x (t + 1) → w t < 0)
    (hdist : ∀ i j, i < L → j < L → τ (x i) = τ (x j) → x i = x j) :
    ∑ t ∈ Finset.range L, w t < 0 := by
  obtain ⟨t, ht, hlt⟩ := cycle_strict L hL x d τ w hclose hsimple hstrict hself hdist
  have h1 : ∑ t ∈ Finset.range L, w t < ∑ t ∈ Finset.range L, (d (x t) - d (x (t + 1))) := by
    apply Finset.sum_lt_sum
    · intro i hi
      have := hslack i (Finset.mem_range.mp hi)
      linarith
    · exact ⟨t, Finset.mem_range.mpr ht, by linarith⟩
  have h2 : ∑ t ∈ Finset.range L, (d (x t) - d (x (t + 1))) = 0 := by
    rw [Finset.sum_range_sub' (fun t => d (x t)) L, hclose]
    ring
  linarith

/-- potentials that satisfy every edge of a closed walk exclude a negative total: the sum of the weights
    dominates the telescoping sum of potential differences -/
theorem potentials_exclude {α : Type*} (L : ℕ) (x : ℕ → α) (d : α → ℝ) (w : ℕ → ℝ) (hclose : x L = x 0)
    (hsat : ∀ t, t < L → d (x t) ≤ d (x (t + 1)) + w t) : 0 ≤ ∑ t ∈ Finset.range L, w t := by
  have h1 : ∑ t ∈ Finset.range L, (d (x t) - d (x (t + 1))) ≤ ∑ t ∈ Finset.range L, w t := by
    apply Finset.sum_le_sum
    intro i hi
    have := hsat i (Finset.mem_range.mp hi)
    linarith
  have h2 : ∑ t ∈ Finset.range L, (d (x t) - d (x (t + 1))) = 0 := by
    rw [Finset.sum_range_sub' (fun t => d (x t)) L, hclose]
    ring
  linarith
