/- LDL' factorization: the entry-wise relations that the obligations of P12 and P13 establish,
   turned into statements about the quadratic form, for blocks of every size.
   Rows and columns are numbered s, ..., e-1 (natural numbers). -/
import Mathlib

open Finset BigOperators

noncomputable section

variable (A T : ℕ → ℕ → ℝ)

/-- what the verified code establishes: D on the diagonal, L below, D L' above -/
structure LDL (s e : ℕ) : Prop where
  sym : ∀ r c, A r c = A c r
  low : ∀ r c, s ≤ c → c < r → r < e → T r c * T c c = T c r
  off : ∀ r c, s ≤ c → c < r → r < e → A r c = T c r + ∑ k ∈ Ico s c, T r k * T k c
  dia : ∀ r, s ≤ r → r < e → A r r = T r r + ∑ k ∈ Ico s r, T r k * T k r

/-- unit lower triangular factor -/
def L (r k : ℕ) : ℝ := if k = r then 1 else if k < r then T r k else 0

variable {A T}

theorem entry {s e : ℕ} (h : LDL A T s e) {r c : ℕ} (hc : s ≤ c) (hcr : c ≤ r) (hr : r < e) :
    A r c = ∑ k ∈ Ico s e, L T r k * T k k * L T c k := by
  have hz : ∀ k ∈ Ico s e, k ∉ Ico s (c + 1) → L T r k * T k k * L T c k = 0 := by
    intro k _ hk2
    have hkc : c < k := by
      simp only [mem_Ico, not_and, not_lt] at *
      have := hk2 (by omega)
      omega
    have : L T c k = 0 := by
      unfold L
      rw [if_neg (by omega), if_neg (by omega)]
    rw [this, mul_zero]
  have hsub : Ico s (c + 1) ⊆ Ico s e := by
    intro x hx
    simp only [mem_Ico] at *
    omega
  rw [← sum_subset hsub hz, sum_Ico_succ_top hc]
  have hcc : L T c c = 1 := by simp [L]
  have hin : ∀ k ∈ Ico s c, L T r k * T k k * L T c k = T r k * T k c := by
    intro k hk
    simp only [mem_Ico] at hk
    have h1 : L T c k = T c k := by
      unfold L
      rw [if_neg (by omega), if_pos (by omega)]
    have h2 : L T r k = T r k := by
      unfold L
      rw [if_neg (by omega), if_pos (by omega)]
    rw [h1, h2, mul_assoc, mul_comm (T k k), h.low c k hk.1 hk.2 (by omega)]
  rw [sum_congr rfl hin, hcc, mul_one]
  rcases Nat.lt_or_ge c r with hlt | hge
  · have h2 : L T r c = T r c := by
      unfold L
      rw [if_neg (by omega), if_pos hlt]
    rw [h2, h.low r c hc hlt hr, h.off r c hc hlt hr]
    ring
  · have hrc : r = c := by omega
    subst hrc
    rw [hcc, one_mul, h.dia r hc hr]
    ring

theorem entry' {s e : ℕ} (h : LDL A T s e) {r c : ℕ} (hr : r ∈ Ico s e) (hc : c ∈ Ico s e) :
    A r c = ∑ k ∈ Ico s e, L T r k * T k k * L T c k := by
  simp only [mem_Ico] at hr hc
  rcases le_total c r with hh | hh
  · exact entry h hc.1 hh hr.2
  · rw [h.sym r c, entry h hr.1 hh hc.2]
    exact sum_congr rfl (fun k _ => by ring)

/-- v'Av = sum of pivot * square -/
theorem quad {s e : ℕ} (h : LDL A T s e) (v : ℕ → ℝ) :
    ∑ i ∈ Ico s e, ∑ j ∈ Ico s e, v i * A i j * v j
      = ∑ k ∈ Ico s e, T k k * (∑ i ∈ Ico s e, v i * L T i k) ^ 2 := by
  have h1 : ∀ i ∈ Ico s e, ∀ j ∈ Ico s e,
      v i * A i j * v j = ∑ k ∈ Ico s e, T k k * ((v i * L T i k) * (v j * L T j k)) := by
    intro i hi j hj
    rw [entry' h hi hj, mul_sum, sum_mul]
    exact sum_congr rfl (fun k _ => by ring)
  rw [sum_congr rfl (fun i hi => sum_congr rfl (fun j hj => h1 i hi j hj))]
  rw [sum_congr rfl (fun i _ => sum_comm), sum_comm]
  refine sum_congr rfl (fun k _ => ?_)
  rw [sq, sum_mul_sum, mul_sum]
  exact sum_congr rfl (fun i _ => by rw [mul_sum])

/-- accepted: all pivots positive, so the matrix is positive definite -/
theorem ldl_pos {s e : ℕ} (h : LDL A T s e) (hp : ∀ k, s ≤ k → k < e → 0 < T k k)
    (v : ℕ → ℝ) (hv : ∃ i ∈ Ico s e, v i ≠ 0) :
    0 < ∑ i ∈ Ico s e, ∑ j ∈ Ico s e, v i * A i j * v j := by
  rw [quad h v]
  -- the last non-zero entry
  obtain ⟨i0, hi0, hvi0⟩ := hv
  obtain ⟨m, hm, hmax⟩ := exists_max_image ((Ico s e).filter (fun i => v i ≠ 0)) id
    ⟨i0, mem_filter.2 ⟨hi0, hvi0⟩⟩
  rw [mem_filter] at hm
  have hs : ∑ i ∈ Ico s e, v i * L T i m = v m := by
    rw [sum_eq_single_of_mem m hm.1]
    · simp [L]
    · intro i hi him
      by_cases hz : v i = 0
      · rw [hz, zero_mul]
      · have := hmax i (mem_filter.2 ⟨hi, hz⟩)
        simp only [id] at this
        have : L T i m = 0 := by
          unfold L
          rw [if_neg (by omega), if_neg (by omega)]
        rw [this, mul_zero]
  have hmb := mem_Ico.1 hm.1
  refine sum_pos' (fun k hk => ?_) ⟨m, hm.1, ?_⟩
  · have hkb := mem_Ico.1 hk
    exact mul_nonneg (hp k hkb.1 hkb.2).le (sq_nonneg _)
  · rw [hs]
    exact mul_pos (hp m hmb.1 hmb.2) (by have := hm.2; positivity)

/-- rejected: the back substitution L'v = e_m gives v'Av = last pivot -/
theorem ldl_witness {s m : ℕ} (hsm : s ≤ m) (h : LDL A T s (m + 1)) (v : ℕ → ℝ) (h1 : v m = 1)
    (hv : ∀ i, s ≤ i → i < m → v i + ∑ k ∈ Ico (i + 1) (m + 1), T k i * v k = 0) :
    ∑ i ∈ Ico s (m + 1), ∑ j ∈ Ico s (m + 1), v i * A i j * v j = T m m := by
  have key : ∀ k, s ≤ k → k ≤ m → ∑ i ∈ Ico s (m + 1), v i * L T i k
      = v k + ∑ i ∈ Ico (k + 1) (m + 1), T i k * v i := by
    intro k hk hkm
    have h0 : Ico s (m + 1) = Ico s (k + 1) ∪ Ico (k + 1) (m + 1) :=
      (Ico_union_Ico_eq_Ico (by omega) (by omega)).symm
    have hd : Disjoint (Ico s (k + 1)) (Ico (k + 1) (m + 1)) := Ico_disjoint_Ico_consecutive _ _ _
    rw [h0, sum_union hd, sum_Ico_succ_top hk]
    have e1 : ∑ i ∈ Ico s k, v i * L T i k = 0 := by
      refine sum_eq_zero (fun i hi => ?_)
      have := mem_Ico.1 hi
      have : L T i k = 0 := by
        unfold L
        rw [if_neg (by omega), if_neg (by omega)]
      rw [this, mul_zero]
    have e2 : L T k k = 1 := by simp [L]
    rw [e1, e2, zero_add, mul_one]
    congr 1
    refine sum_congr rfl (fun i hi => ?_)
    have := mem_Ico.1 hi
    have : L T i k = T i k := by
      unfold L
      rw [if_neg (by omega), if_pos (by omega)]
    rw [this, mul_comm]
  rw [quad h v, sum_eq_single_of_mem m (mem_Ico.2 ⟨hsm, by omega⟩)]
  · rw [key m hsm le_rfl, h1]
    simp
  · intro k hk hkm
    have hkb := mem_Ico.1 hk
    rw [key k hkb.1 (by omega), hv k hkb.1 (by omega)]
    simp

/-- a rejected matrix is not positive definite -/
theorem ldl_reject {s m : ℕ} (hsm : s ≤ m) (h : LDL A T s (m + 1)) (hm : T m m ≤ 0) (v : ℕ → ℝ) (h1 : v m = 1)
    (hv : ∀ i, s ≤ i → i < m → v i + ∑ k ∈ Ico (i + 1) (m + 1), T k i * v k = 0) :
    (∃ i ∈ Ico s (m + 1), v i ≠ 0) ∧ ∑ i ∈ Ico s (m + 1), ∑ j ∈ Ico s (m + 1), v i * A i j * v j ≤ 0 := by
  refine ⟨⟨m, mem_Ico.2 ⟨hsm, by omega⟩, by rw [h1]; exact one_ne_zero⟩, ?_⟩
  rw [ldl_witness hsm h v h1 hv]
  exact hm

/-- the back substitution has a solution, so a rejected matrix always has such a vector -/
theorem ldl_solvable (s m : ℕ) (U : ℕ → ℕ → ℝ) :
    ∃ v : ℕ → ℝ, v m = 1 ∧ ∀ i, s ≤ i → i < m → v i + ∑ k ∈ Ico (i + 1) (m + 1), U k i * v k = 0 := by
  suffices H : ∀ d, ∃ v : ℕ → ℝ, v m = 1 ∧ ∀ i, m - d ≤ i → i < m →
      v i + ∑ k ∈ Ico (i + 1) (m + 1), U k i * v k = 0 by
    obtain ⟨v, h1, h2⟩ := H m
    exact ⟨v, h1, fun i _ hi => h2 i (by omega) hi⟩
  intro d
  induction d with
  | zero => exact ⟨fun _ => 1, rfl, fun i hi hi2 => by omega⟩
  | succ d ih =>
    obtain ⟨v, h1, h2⟩ := ih
    by_cases hd : m ≤ d
    · exact ⟨v, h1, fun i _ hi => h2 i (by omega) hi⟩
    · let j := m - (d + 1)
      refine ⟨Function.update v j (-(∑ k ∈ Ico (j + 1) (m + 1), U k j * v k)), ?_, ?_⟩
      · rw [Function.update_of_ne (by omega)]
        exact h1
      · intro i hi hi2
        have hs : ∀ q, j < q → ∑ k ∈ Ico q (m + 1), U k i * Function.update v j (-(∑ k ∈ Ico (j + 1) (m + 1), U k j * v k)) k
            = ∑ k ∈ Ico q (m + 1), U k i * v k := by
          intro q hq
          refine sum_congr rfl (fun k hk => ?_)
          have := mem_Ico.1 hk
          rw [Function.update_of_ne (by omega)]
        rw [hs (i + 1) (by omega)]
        rcases Nat.lt_or_ge j i with hlt | hge
        · rw [Function.update_of_ne (by omega)]
          exact h2 i (by omega) hi2
        · have : i = j := by omega
          subst this
          rw [Function.update_self]
          ring

/-- the square root R(i,j) = L(j,i) sqrt(D_i) satisfies R'R = A -/
theorem ldl_sqrt {s e : ℕ} (h : LDL A T s e) (R : ℕ → ℕ → ℝ)
    (hd : ∀ k, s ≤ k → k < e → R k k ^ 2 = T k k)
    (hu : ∀ c r, s ≤ c → c < r → r < e → R c r = T r c * R c c)
    (hl : ∀ r c, c < r → R r c = 0) {r c : ℕ} (hr : r ∈ Ico s e) (hc : c ∈ Ico s e) :
    ∑ k ∈ Ico s e, R k r * R k c = A r c := by
  rw [entry' h hr hc]
  refine sum_congr rfl (fun k hk => ?_)
  have hkb := mem_Ico.1 hk
  have hR : ∀ q, q ∈ Ico s e → R k q = L T q k * R k k := by
    intro q hq
    have hqb := mem_Ico.1 hq
    unfold L
    split_ifs with h1 h2
    · rw [h1, one_mul]
    · exact hu k q hkb.1 h2 hqb.2
    · rw [zero_mul]
      exact hl k q (by omega)
  rw [hR r hr, hR c hc, ← hd k hkb.1 hkb.2]
  ring

end

#print axioms ldl_pos
#print axioms ldl_witness
#print axioms ldl_reject
#print axioms ldl_solvable
#print axioms ldl_sqrt
