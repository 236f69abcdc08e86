import Mathlib.Algebra.BigOperators.Field
import Mathlib.Algebra.BigOperators.Intervals
import Mathlib.Algebra.Order.BigOperators.Group.Finset
import Mathlib.Data.Real.Basic
import Mathlib.Data.Int.Interval
import Mathlib.Tactic.Ring
import Mathlib.Tactic.Linarith

/-! The facts about finite sums which the verification condition generator (pyvc/sums.py) and
the contracts use.  Each theorem is named after the rule it justifies. -/

open Finset

/-- C08: changing one entry changes the sum by the difference -/
theorem point_update (n p : ℕ) (hp : p < n) (f : ℕ → ℝ) (v : ℝ) :
    ∑ j ∈ range n, (if j = p then v else f j) = ∑ j ∈ range n, f j + (v - f p) := by
  have h1 : ∑ j ∈ range n, (if j = p then v else f j)
      = ∑ j ∈ range n, (f j + if j = p then v - f p else 0) := by
    apply sum_congr rfl
    intro j _
    by_cases h : j = p
    · subst h; simp
    · simp [h]
  rw [h1, sum_add_distrib, sum_ite_eq' (range n) p]
  simp [hp]

/-- sum_poly: a quotient with a denominator free of the index -/
theorem scaled (n : ℕ) (f : ℕ → ℝ) (c : ℝ) :
    ∑ j ∈ range n, f j / c = (∑ j ∈ range n, f j) / c := by
  rw [sum_div]

/-- sum_poly: a term free of the index -/
theorem constant (n : ℕ) (c : ℝ) : ∑ _j ∈ range n, c = (n : ℝ) * c := by
  simp

/-- sum_poly: sums of terms -/
theorem plus (n : ℕ) (f g : ℕ → ℝ) :
    ∑ j ∈ range n, (f j + g j) = ∑ j ∈ range n, f j + ∑ j ∈ range n, g j :=
  sum_add_distrib

theorem minus (n : ℕ) (f g : ℕ → ℝ) :
    ∑ j ∈ range n, (f j - g j) = ∑ j ∈ range n, f j - ∑ j ∈ range n, g j :=
  sum_sub_distrib ..

/-- sum_poly: a factor free of the index -/
theorem factor (n : ℕ) (f : ℕ → ℝ) (c : ℝ) :
    ∑ j ∈ range n, c * f j = c * ∑ j ∈ range n, f j := by
  rw [mul_sum]

/-- sum_poly: a condition free of the index -/
theorem choice (n : ℕ) (f g : ℕ → ℝ) (p : Prop) [Decidable p] :
    ∑ j ∈ range n, (if p then f j else g j) = if p then ∑ j ∈ range n, f j else ∑ j ∈ range n, g j := by
  split <;> rfl

/-- telescope: adjoining windows make one window -/
theorem telescope (lo : ℕ → ℤ) (hm : ∀ y, lo y ≤ lo (y + 1)) (f : ℤ → ℝ) (n : ℕ) :
    ∑ y ∈ range n, ∑ x ∈ Ico (lo y) (lo (y + 1)), f x = ∑ x ∈ Ico (lo 0) (lo n), f x := by
  have mono : ∀ m, lo 0 ≤ lo m := by
    intro m
    induction m with
    | zero => exact le_refl _
    | succ k ih => exact le_trans ih (hm k)
  induction n with
  | zero => simp
  | succ k ih =>
    rw [sum_range_succ, ih, ← Ico_union_Ico_eq_Ico (mono k) (hm k),
      sum_union (Ico_disjoint_Ico_consecutive _ _ _)]

/-- blocks: a sum of `c * M` terms, block by block -/
theorem blocks (c : ℕ) (b : ℕ → ℝ) (M : ℕ) :
    ∑ y ∈ range (c * M), b y = ∑ z ∈ range M, ∑ w ∈ range c, b (c * z + w) := by
  induction M with
  | zero => simp
  | succ k ih => rw [Nat.mul_succ, sum_range_add, ih, sum_range_succ]

/-- blocks: terms constant within the block -/
theorem constant_blocks (c : ℕ) (hc : 0 < c) (b : ℕ → ℝ) (M : ℕ) :
    ∑ y ∈ range (c * M), b (y / c) = (c : ℝ) * ∑ z ∈ range M, b z := by
  rw [blocks c (fun y => b (y / c)) M, mul_sum]
  apply sum_congr rfl
  intro z _
  have : ∀ w ∈ range c, b ((c * z + w) / c) = b z := by
    intro w hw
    rw [Nat.mul_add_div hc, Nat.div_eq_of_lt (mem_range.mp hw), Nat.add_zero]
  rw [sum_congr rfl this]
  simp

/-- rotate: running once around -/
theorem rotate (L : ℤ) (hL : 0 < L) (c : ℤ) (b : ℤ → ℝ) :
    ∑ y ∈ Ico 0 L, b ((y + c) % L) = ∑ z ∈ Ico 0 L, b z := by
  have hne : L ≠ 0 := ne_of_gt hL
  apply sum_nbij' (fun y => (y + c) % L) (fun z => (z - c) % L)
  · intro y _
    exact mem_Ico.mpr ⟨Int.emod_nonneg _ hne, Int.emod_lt_of_pos _ hL⟩
  · intro y _
    exact mem_Ico.mpr ⟨Int.emod_nonneg _ hne, Int.emod_lt_of_pos _ hL⟩
  · intro y hy
    obtain ⟨h0, h1⟩ := mem_Ico.mp hy
    show ((y + c) % L - c) % L = y
    rw [Int.emod_sub_emod, add_sub_cancel_right, Int.emod_eq_of_lt h0 h1]
  · intro y hy
    obtain ⟨h0, h1⟩ := mem_Ico.mp hy
    show ((y - c) % L + c) % L = y
    rw [Int.emod_add_emod, sub_add_cancel, Int.emod_eq_of_lt h0 h1]
  · intro y _
    rfl

/-- make: a sum does not change when the index is shifted -/
theorem shift (lo hi d : ℤ) (f : ℤ → ℝ) :
    ∑ x ∈ Ico lo hi, f (x + d) = ∑ x ∈ Ico (lo + d) (hi + d), f x := by
  apply sum_nbij' (fun x => x + d) (fun x => x - d)
  · intro x hx
    obtain ⟨h0, h1⟩ := mem_Ico.mp hx
    exact mem_Ico.mpr ⟨by linarith, by linarith⟩
  · intro x hx
    obtain ⟨h0, h1⟩ := mem_Ico.mp hx
    exact mem_Ico.mpr ⟨by linarith, by linarith⟩
  · intro x _; simp
  · intro x _; simp
  · intro x _; rfl

/-- rep: equal term by term -/
theorem extensional (n : ℕ) (f g : ℕ → ℝ) (h : ∀ j < n, f j = g j) :
    ∑ j ∈ range n, f j = ∑ j ∈ range n, g j :=
  sum_congr rfl fun j hj => h j (mem_range.mp hj)

/-- facts: sign and size from the terms -/
theorem sign (n : ℕ) (f : ℕ → ℝ) (h : ∀ j < n, 0 ≤ f j) : 0 ≤ ∑ j ∈ range n, f j :=
  sum_nonneg fun j hj => h j (mem_range.mp hj)

theorem size (n : ℕ) (f : ℕ → ℝ) (u : ℝ) (h : ∀ j < n, f j ≤ u) :
    ∑ j ∈ range n, f j ≤ u * n := by
  have := sum_le_card_nsmul (range n) f u fun j hj => h j (mem_range.mp hj)
  simpa [mul_comm] using this

/-- facts: one term of a sum of non-negative terms -/
theorem one_term (n p : ℕ) (hp : p < n) (f : ℕ → ℝ) (h : ∀ j < n, 0 ≤ f j) :
    f p ≤ ∑ j ∈ range n, f j :=
  single_le_sum (fun j hj => h j (mem_range.mp hj)) (mem_range.mpr hp)
