import Mathlib.Data.Int.GCD
import Mathlib.Tactic

/-- gcd(0, n) = |n| -/
theorem gcd_zero_abs (n : ℤ) : (Int.gcd 0 n : ℤ) = |n| := by
  rw [Int.gcd_zero_left]; exact Int.natCast_natAbs n

/-- gcd(a, b + k a) = gcd(a, b): subtracting a multiple changes nothing -/
theorem gcd_sub_mul (a b k : ℤ) : (Int.gcd a (b + a * k) : ℤ) = Int.gcd a b := by
  congr 1
  exact Int.gcd_add_mul_left_right a b k

/-- numbers that are not both zero are g times coprime numbers, g > 0 being their gcd -/
theorem gcd_split (m n : ℤ) (h : m ≠ 0 ∨ n ≠ 0) :
    ∃ a b u v : ℤ, 0 < (Int.gcd m n : ℤ) ∧ m = Int.gcd m n * a ∧ n = Int.gcd m n * b ∧ u * a + v * b = 1 := by
  have hg : 0 < (Int.gcd m n : ℤ) := by
    have : 0 < Int.gcd m n := Int.gcd_pos_iff.mpr h
    exact_mod_cast this
  obtain ⟨a, ha⟩ := Int.gcd_dvd_left (a := m) (b := n)
  obtain ⟨b, hb⟩ := Int.gcd_dvd_right (a := m) (b := n)
  refine ⟨a, b, Int.gcdA m n, Int.gcdB m n, hg, ha, hb, ?_⟩
  have e := Int.gcd_eq_gcd_ab m n
  have : (Int.gcd m n : ℤ) * (Int.gcdA m n * a + Int.gcdB m n * b) = Int.gcd m n * 1 := by
    calc (Int.gcd m n : ℤ) * (Int.gcdA m n * a + Int.gcdB m n * b)
        = (Int.gcd m n * a) * Int.gcdA m n + (Int.gcd m n * b) * Int.gcdB m n := by ring
      _ = m * Int.gcdA m n + n * Int.gcdB m n := by rw [← ha, ← hb]
      _ = Int.gcd m n * 1 := by rw [← e]; ring
  exact mul_left_cancel₀ (ne_of_gt hg) this

/-- both zero: the gcd is 0 -/
theorem gcd_zero_zero : (Int.gcd 0 0 : ℤ) = 0 := by simp

/-- Bezout coefficients certify lowest terms -/
theorem lowest_terms (p q u v : ℤ) (h : u * p + v * q = 1) : Int.gcd p q = 1 := by
  have : IsCoprime p q := ⟨u, v, h⟩
  exact Int.isCoprime_iff_gcd_eq_one.mp this

/-- a fraction in lowest terms with positive denominator is determined by its value -/
theorem normal_unique (p q r s u v : ℤ) (hq : 0 < q) (hs : 0 < s) (h : u * p + v * q = 1)
    (u' v' : ℤ) (h' : u' * r + v' * s = 1) (e : p * s = r * q) : p = r ∧ q = s := by
  have d1 : q ∣ s := by
    refine ⟨u * r + v * s, ?_⟩
    calc s = s * (u * p + v * q) := by rw [h]; ring
      _ = u * (p * s) + v * q * s := by ring
      _ = u * (r * q) + v * q * s := by rw [e]
      _ = q * (u * r + v * s) := by ring
  have d2 : s ∣ q := by
    refine ⟨u' * p + v' * q, ?_⟩
    calc q = q * (u' * r + v' * s) := by rw [h']; ring
      _ = u' * (r * q) + v' * s * q := by ring
      _ = u' * (p * s) + v' * s * q := by rw [e]
      _ = s * (u' * p + v' * q) := by ring
  have hqs : q = s := Int.dvd_antisymm hq.le hs.le d1 d2
  refine ⟨?_, hqs⟩
  subst hqs
  exact mul_right_cancel₀ (ne_of_gt hq) e

/-- a unit: d * w = 1 with d > 0 -/
theorem pos_unit (d w : ℤ) (hd : 0 < d) (h : d * w = 1) : d = 1 := by
  have := Int.eq_one_or_neg_one_of_mul_eq_one h
  omega

/-- exact truncating division -/
theorem exact_div (y k : ℤ) (hy : y ≠ 0) : (y * k).tdiv y = k := by
  exact Int.mul_tdiv_cancel_left k hy

/-- the remainder of the truncating division is smaller than the divisor (termination) -/
theorem rem_lt (m n : ℤ) (hn : n ≠ 0) : |m.tmod n| < |n| := by
  have := Int.tmod_lt_of_pos (m.natAbs : ℤ) (b := |n|) (abs_pos.mpr hn)
  have h2 := Int.natAbs_tmod m n
  rw [Int.abs_eq_natAbs, h2, Int.abs_eq_natAbs]
  exact_mod_cast Nat.mod_lt _ (Int.natAbs_pos.mpr hn)

/-- lcm(m, n) gcd(m, n) = |m n| -/
theorem lcm_mul_gcd (m n : ℤ) : (Int.lcm m n : ℤ) * Int.gcd m n = |m * n| := by
  have := Int.gcd_mul_lcm m n
  rw [mul_comm]
  rw [Int.abs_eq_natAbs]
  exact_mod_cast this.trans (by simp [Int.natAbs_mul])
