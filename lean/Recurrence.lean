import Mathlib.Algebra.Polynomial.Derivative
import Mathlib.Tactic.Ring
import Mathlib.Tactic.LinearCombination

/-!
The specification of the polynomial bases (properties B01, B02) is a table `T e k` ("the e-th derivative of the
k-th polynomial at x") given by the differentiated three-term recurrence.  Here: if the polynomials satisfy the
three-term recurrence, their iterated derivatives satisfy exactly that recurrence, and the recurrence with its
initial rows has only one solution.  So the table is the iterated derivative.
-/
open Polynomial

theorem derivative_step {R : Type*} [CommRing R] (a b c : R) (p q r : R[X])
    (h : r = (C a * X + C b) * p - C c * q) (e : ℕ) :
    derivative^[e] r = (C a * X + C b) * derivative^[e] p + C ((e : R) * a) * derivative^[e - 1] p
      - C c * derivative^[e] q := by
  subst h
  induction e with
  | zero => simp
  | succ e ih =>
    rw [Function.iterate_succ_apply', ih]
    simp only [derivative_sub, derivative_add, derivative_mul, derivative_C, derivative_X,
      ← Function.iterate_succ_apply' derivative]
    rcases e with _ | e
    · simp; ring
    · simp only [Nat.succ_eq_add_one, Nat.add_sub_cancel, Nat.cast_add, Nat.cast_one, C_mul, C_add, C_1]
      ring

theorem recurrence_table {R : Type*} [CommRing R] (x : R) (a b c : ℕ → R) (p : ℕ → R[X])
    (h : ∀ k, p (k + 2) = (C (a k) * X + C (b k)) * p (k + 1) - C (c k) * p k)
    (T : ℕ → ℕ → R)
    (h0 : ∀ e, T e 0 = (derivative^[e] (p 0)).eval x) (h1 : ∀ e, T e 1 = (derivative^[e] (p 1)).eval x)
    (hT : ∀ e k, T e (k + 2) = (a k * x + b k) * T e (k + 1) + (e : R) * a k * T (e - 1) (k + 1) - c k * T e k) :
    ∀ k e, T e k = (derivative^[e] (p k)).eval x := by
  have key : ∀ k, (∀ e, T e k = (derivative^[e] (p k)).eval x) ∧
      (∀ e, T e (k + 1) = (derivative^[e] (p (k + 1))).eval x) := by
    intro k
    induction k with
    | zero => exact ⟨h0, h1⟩
    | succ k ih =>
      refine ⟨ih.2, fun e => ?_⟩
      rw [hT, derivative_step _ _ _ _ _ _ (h k) e, ih.2, ih.2, ih.1]
      simp
  exact fun k => (key k).1

/-- initial rows: the constant 1 and a degree one polynomial -/
theorem row_zero {R : Type*} [CommRing R] (x : R) (e : ℕ) :
    (derivative^[e] (1 : R[X])).eval x = if e = 0 then 1 else 0 := by
  rcases e with _ | e
  · simp
  · simp [Function.iterate_succ_apply]

theorem row_one {R : Type*} [CommRing R] (x a b : R) (e : ℕ) :
    (derivative^[e] (C a * X + C b : R[X])).eval x = if e = 0 then a * x + b else if e = 1 then a else 0 := by
  rcases e with _ | _ | e
  · simp
  · simp
  · simp [Function.iterate_succ_apply]
