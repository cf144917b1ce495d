import Mathlib.LinearAlgebra.Matrix.NonsingularInverse
import Mathlib.Algebra.BigOperators.Group.Finset.Basic

/-!
The constrained expression satisfies its constraints (property E01).

`R` is the ring of values of the projection terms (functions of the other variables), `M` the module of
expressions, `C i` the constraint operators: additive, and they commute with multiplication by the projection
terms (`R`-linear).  The contracts proved on `CeSolver` give `S i j = C i (s j)`, `alpha = S⁻¹`,
`phi k = ∑ j, s j * alpha j k`, `rho k = kappa k - C k g` and `ce = g + ∑ k, phi k * rho k`.
-/
open Matrix Finset

theorem constrained {n : Type*} [Fintype n] [DecidableEq n] {R M : Type*} [CommRing R] [AddCommGroup M] [Module R M]
    (C : n → M →ₗ[R] R) (s : n → M) (g : M) (kappa : n → R)
    (S alpha : Matrix n n R) (hS : ∀ i j, S i j = C i (s j)) (ha : S * alpha = 1)
    (phi : n → M) (hphi : ∀ k, phi k = ∑ j, alpha j k • s j)
    (rho : n → R) (hrho : ∀ k, rho k = kappa k - C k g)
    (ce : M) (hce : ce = g + ∑ k, rho k • phi k) :
    ∀ i, C i ce = kappa i := by
  intro i
  have key : ∀ k, C i (phi k) = (1 : Matrix n n R) i k := by
    intro k
    rw [hphi k, map_sum, ← ha, Matrix.mul_apply]
    refine Finset.sum_congr rfl fun j _ => ?_
    rw [map_smul, smul_eq_mul, hS i j, mul_comm]
  rw [hce, map_add, map_sum]
  have : ∑ k, C i (rho k • phi k) = rho i := by
    simp only [map_smul, smul_eq_mul, key, Matrix.one_apply]
    simp
  rw [this, hrho i]
  ring
