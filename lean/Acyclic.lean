import Mathlib.LinearAlgebra.Matrix.Charpoly.Coeff
import Mathlib.RingTheory.Nilpotent.Basic
import Mathlib.Data.Matrix.Mul
import Mathlib.Logic.Relation
import Mathlib.Data.Fintype.Card
import Mathlib.Data.Real.Basic
import Mathlib.Order.WellFounded
import Mathlib.Order.RelIso.Set

/-!
G01: a non-negative matrix whose support is the edge relation is nilpotent exactly if the relation has no cycle.
-/
open Matrix Relation

variable {n : Type*} [Fintype n] [DecidableEq n]

/-- positive entries of powers are walks -/
theorem pow_entries_nonneg (A : Matrix n n ℝ) (h0 : ∀ i j, 0 ≤ A i j) (i j : n) :
    ∀ k, (0 ≤ (A ^ k) i j) := by
  intro k
  induction k generalizing i j with
  | zero => rw [pow_zero, Matrix.one_apply]; split <;> norm_num
  | succ k ih => rw [pow_succ, Matrix.mul_apply]; exact Finset.sum_nonneg fun l _ => mul_nonneg (ih i l) (h0 l j)

theorem walk_pos (A : Matrix n n ℝ) (h0 : ∀ i j, 0 ≤ A i j) {i j : n}
    (h : TransGen (fun i j => A i j ≠ 0) i j) : ∃ k, 0 < k ∧ 0 < (A ^ k) i j := by
  induction h with
  | single h => exact ⟨1, one_pos, by rw [pow_one]; exact lt_of_le_of_ne (h0 _ _) (Ne.symm h)⟩
  | @tail b c _ h ih =>
    obtain ⟨k, hk, hp⟩ := ih
    refine ⟨k + 1, Nat.succ_pos _, ?_⟩
    rw [pow_succ, Matrix.mul_apply]
    refine Finset.sum_pos' (fun l _ => mul_nonneg (pow_entries_nonneg A h0 _ _ k) (h0 l c)) ⟨b, Finset.mem_univ _, ?_⟩
    exact mul_pos hp (lt_of_le_of_ne (h0 _ _) (Ne.symm h))

/-- a cycle prevents nilpotency -/
theorem cycle_not_nilpotent (A : Matrix n n ℝ) (h0 : ∀ i j, 0 ≤ A i j) (i : n)
    (h : TransGen (fun i j => A i j ≠ 0) i i) : ¬ IsNilpotent A := by
  obtain ⟨k, hk, hp⟩ := walk_pos A h0 h
  have hd : ∀ m, 0 < ((A ^ k) ^ m) i i := by
    intro m
    induction m with
    | zero => simp
    | succ m ih =>
      rw [pow_succ, Matrix.mul_apply]
      refine Finset.sum_pos' (fun l _ => mul_nonneg ?_ (pow_entries_nonneg A h0 _ _ k)) ⟨i, Finset.mem_univ _, mul_pos ih hp⟩
      rw [← pow_mul]; exact pow_entries_nonneg A h0 _ _ _
  rintro ⟨m, hm⟩
  have := hd m
  rw [← pow_mul, mul_comm, pow_mul, hm, zero_pow hk.ne'] at this
  simp at this

/-- without cycles, powers vanish -/
theorem acyclic_nilpotent (A : Matrix n n ℝ)
    (h : ∀ i, ¬ TransGen (fun i j => A i j ≠ 0) i i) : IsNilpotent A := by
  -- the number of vertices reachable from j decreases strictly along each edge
  classical
  let r : n → n → Prop := fun i j => A i j ≠ 0
  let reach : n → Finset n := fun j => Finset.univ.filter fun l => TransGen r j l
  have dec : ∀ i j, A i j ≠ 0 → (reach j).card < (reach i).card := by
    intro i j hij
    refine Finset.card_lt_card (Finset.ssubset_iff_subset_ne.mpr ⟨?_, ?_⟩)
    · intro l hl
      simp only [reach, Finset.mem_filter, Finset.mem_univ, true_and] at hl ⊢
      exact TransGen.head hij hl
    · intro e
      have : j ∈ reach i := by
        simp only [reach, Finset.mem_filter, Finset.mem_univ, true_and]
        exact TransGen.single hij
      rw [← e] at this
      simp only [reach, Finset.mem_filter, Finset.mem_univ, true_and] at this
      exact h j this
  have key : ∀ k i j, (reach i).card < k + (reach j).card → (A ^ k) i j = 0 := by
    intro k
    induction k with
    | zero =>
      intro i j hlt
      rw [pow_zero, Matrix.one_apply, if_neg]
      rintro rfl; omega
    | succ k ih =>
      intro i j hlt
      rw [pow_succ, Matrix.mul_apply]
      refine Finset.sum_eq_zero fun l _ => ?_
      by_cases hl : A l j = 0
      · rw [hl, mul_zero]
      · rw [ih i l (by have := dec l j hl; omega), zero_mul]
  refine ⟨Fintype.card n + 1, ?_⟩
  ext i j
  refine key _ i j ?_
  have := Finset.card_le_univ (reach i)
  omega

/-- the orientation is a forest of dependencies (no chain leads from a component back to itself) exactly if the
adjacency matrix is nilpotent -/
theorem nilpotent_iff_acyclic (A : Matrix n n ℝ) (h0 : ∀ i j, 0 ≤ A i j) :
    IsNilpotent A ↔ ∀ i, ¬ TransGen (fun i j => A i j ≠ 0) i i :=
  ⟨fun hn i hi => cycle_not_nilpotent A h0 i hi hn, acyclic_nilpotent A⟩

/-- the direction in which the edges are stored does not matter -/
theorem transpose_nilpotent (A : Matrix n n ℝ) : IsNilpotent Aᵀ ↔ IsNilpotent A := by
  constructor <;> rintro ⟨k, hk⟩ <;> refine ⟨k, ?_⟩
  · rw [← Matrix.transpose_pow] at hk
    simpa using congrArg Matrix.transpose hk
  · rw [← Matrix.transpose_pow, hk, Matrix.transpose_zero]
