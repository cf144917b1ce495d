import Mathlib.Analysis.Calculus.IteratedDeriv.Lemmas
import Mathlib.Analysis.SpecialFunctions.Trigonometric.Deriv
import Mathlib.Analysis.SpecialFunctions.ExpDeriv
import Mathlib.Analysis.SpecialFunctions.Trigonometric.DerivHyp
import Mathlib.Algebra.Polynomial.Derivative
import Mathlib.Analysis.Calculus.Deriv.Polynomial

/-!
The derivative tables used as specifications of the Fourier and random-feature bases (B03, B04, B07) and the
chain-rule factor of the affine domain map (B08) are the iterated derivatives.
-/
open Polynomial

/-! ### Fourier functions and the sine activation -/

theorem sin_table (g x : ℝ) (d : ℕ) :
    iteratedDeriv (4 * d) (fun x => Real.sin (g * x)) x = g ^ (4 * d) * Real.sin (g * x) ∧
    iteratedDeriv (4 * d + 1) (fun x => Real.sin (g * x)) x = g ^ (4 * d + 1) * Real.cos (g * x) ∧
    iteratedDeriv (4 * d + 2) (fun x => Real.sin (g * x)) x = -(g ^ (4 * d + 2) * Real.sin (g * x)) ∧
    iteratedDeriv (4 * d + 3) (fun x => Real.sin (g * x)) x = -(g ^ (4 * d + 3) * Real.cos (g * x)) := by
  have hs : ∀ (c : ℝ), deriv (fun x => c * Real.sin (g * x)) = fun x => c * g * Real.cos (g * x) := by
    intro c; funext y
    have := ((Real.hasDerivAt_sin (g * y)).comp y ((hasDerivAt_id y).const_mul g)).const_mul c
    have h2 := this.deriv
    simp only [Function.comp_def] at h2
    rw [h2]; ring
  have hc : ∀ (c : ℝ), deriv (fun x => c * Real.cos (g * x)) = fun x => -(c * g) * Real.sin (g * x) := by
    intro c; funext y
    have := ((Real.hasDerivAt_cos (g * y)).comp y ((hasDerivAt_id y).const_mul g)).const_mul c
    have h2 := this.deriv
    simp only [Function.comp_def] at h2
    rw [h2]; ring
  have key : ∀ d : ℕ, iteratedDeriv (4 * d) (fun x => Real.sin (g * x)) = fun x => g ^ (4 * d) * Real.sin (g * x) := by
    intro d
    induction d with
    | zero => simp
    | succ d ih =>
      rw [show 4 * (d + 1) = 4 * d + 1 + 1 + 1 + 1 by ring, iteratedDeriv_succ, iteratedDeriv_succ,
        iteratedDeriv_succ, iteratedDeriv_succ, ih, hs, hc, hs, hc]
      funext y; ring
  refine ⟨congrFun (key d) x, ?_, ?_, ?_⟩
  · rw [iteratedDeriv_succ, key, hs]; ring
  · rw [iteratedDeriv_succ, iteratedDeriv_succ, key, hs, hc]; ring
  · rw [iteratedDeriv_succ, iteratedDeriv_succ, iteratedDeriv_succ, key, hs, hc, hs]; ring

theorem cos_table (g x : ℝ) (d : ℕ) :
    iteratedDeriv (4 * d) (fun x => Real.cos (g * x)) x = g ^ (4 * d) * Real.cos (g * x) ∧
    iteratedDeriv (4 * d + 1) (fun x => Real.cos (g * x)) x = -(g ^ (4 * d + 1) * Real.sin (g * x)) ∧
    iteratedDeriv (4 * d + 2) (fun x => Real.cos (g * x)) x = -(g ^ (4 * d + 2) * Real.cos (g * x)) ∧
    iteratedDeriv (4 * d + 3) (fun x => Real.cos (g * x)) x = g ^ (4 * d + 3) * Real.sin (g * x) := by
  have hs : ∀ (c : ℝ), deriv (fun x => c * Real.sin (g * x)) = fun x => c * g * Real.cos (g * x) := by
    intro c; funext y
    have := ((Real.hasDerivAt_sin (g * y)).comp y ((hasDerivAt_id y).const_mul g)).const_mul c
    have h2 := this.deriv
    simp only [Function.comp_def] at h2
    rw [h2]; ring
  have hc : ∀ (c : ℝ), deriv (fun x => c * Real.cos (g * x)) = fun x => -(c * g) * Real.sin (g * x) := by
    intro c; funext y
    have := ((Real.hasDerivAt_cos (g * y)).comp y ((hasDerivAt_id y).const_mul g)).const_mul c
    have h2 := this.deriv
    simp only [Function.comp_def] at h2
    rw [h2]; ring
  have key : ∀ d : ℕ, iteratedDeriv (4 * d) (fun x => Real.cos (g * x)) = fun x => g ^ (4 * d) * Real.cos (g * x) := by
    intro d
    induction d with
    | zero => simp
    | succ d ih =>
      rw [show 4 * (d + 1) = 4 * d + 1 + 1 + 1 + 1 by ring, iteratedDeriv_succ, iteratedDeriv_succ,
        iteratedDeriv_succ, iteratedDeriv_succ, ih, hc, hs, hc, hs]
      funext y; ring
  refine ⟨congrFun (key d) x, ?_, ?_, ?_⟩
  · rw [iteratedDeriv_succ, key, hc]; ring
  · rw [iteratedDeriv_succ, iteratedDeriv_succ, key, hc, hs]; ring
  · rw [iteratedDeriv_succ, iteratedDeriv_succ, iteratedDeriv_succ, key, hc, hs, hc]; ring

/-! ### Activations that satisfy s' = q(s) -/

/-- the polynomial of the n-th derivative: p₀ = X, p_{n+1} = p_n' q -/
noncomputable def odeTable (q : ℝ[X]) : ℕ → ℝ[X]
  | 0 => X
  | n + 1 => derivative (odeTable q n) * q

theorem ode_table (q : ℝ[X]) (s : ℝ → ℝ) (hs : ∀ x, HasDerivAt s (q.eval (s x)) x) (n : ℕ) :
    iteratedDeriv n s = fun x => (odeTable q n).eval (s x) := by
  induction n with
  | zero => simp [odeTable]
  | succ n ih =>
    rw [iteratedDeriv_succ, ih]
    funext x
    have := ((odeTable q n).hasDerivAt (s x)).comp x (hs x)
    simpa [odeTable, Function.comp_def] using this.deriv

theorem sigmoid_ode (x : ℝ) :
    HasDerivAt (fun x => 1 / (1 + Real.exp (-x))) ((X - X ^ 2 : ℝ[X]).eval (1 / (1 + Real.exp (-x)))) x := by
  have hp : (1 + Real.exp (-x)) ≠ 0 := by positivity
  have h := (((Real.hasDerivAt_exp (-x)).comp x (hasDerivAt_neg x)).const_add 1)
  have h2 := (hasDerivAt_const x (1 : ℝ)).div h hp
  refine h2.congr_deriv ?_
  simp only [eval_sub, eval_X, eval_pow, Function.comp]
  field_simp
  ring

theorem tanh_ode (x : ℝ) : HasDerivAt Real.tanh ((1 - X ^ 2 : ℝ[X]).eval (Real.tanh x)) x := by
  have hp : Real.cosh x ≠ 0 := (Real.cosh_pos x).ne'
  have h2 := (Real.hasDerivAt_sinh x).div (Real.hasDerivAt_cosh x) hp
  have : Real.tanh = fun y => Real.sinh y / Real.cosh y := by funext y; exact Real.tanh_eq_sinh_div_cosh y
  rw [this]
  refine h2.congr_deriv ?_
  simp only [eval_sub, eval_one, eval_X, eval_pow]
  field_simp

/-- swish: (x s)^(n) = x s^(n) + n s^(n-1) -/
theorem swish_table (s : ℝ → ℝ) (hs : ContDiff ℝ ⊤ s) (n : ℕ) :
    iteratedDeriv (n + 1) (fun x => x * s x) =
      fun x => x * iteratedDeriv (n + 1) s x + (n + 1 : ℝ) * iteratedDeriv n s x := by
  have hd : ∀ k x, HasDerivAt (iteratedDeriv k s) (iteratedDeriv (k + 1) s x) x := by
    intro k x
    rw [iteratedDeriv_succ]
    exact ((hs.differentiable_iteratedDeriv k (by exact_mod_cast WithTop.coe_lt_top _)) x).hasDerivAt
  induction n with
  | zero =>
    funext x
    have h0 := hd 0 x
    simp only [iteratedDeriv_zero] at h0
    have := ((hasDerivAt_id x).mul h0).deriv
    simp only [id, Pi.mul_def] at this
    rw [iteratedDeriv_one, this]
    simp; ring
  | succ n ih =>
    rw [iteratedDeriv_succ, ih]
    funext x
    have := (((hasDerivAt_id x).mul (hd (n + 1) x)).add ((hd n x).const_mul (n + 1 : ℝ))).deriv
    simp only [id, Pi.mul_def, Pi.add_def] at this
    rw [this]
    push_cast; ring

/-! ### Weights, biases and the domain map -/

/-- the argument is an affine function of the variable: each derivative contributes one factor of the slope.
With `c = w j` and `b` the rest of the weighted sum this is the partial derivative of a ridge function; with
`c = (zf - z0) / (xf - x0)` it is the chain rule of the domain map. -/
theorem affine_chain (f : ℝ → ℝ) (n : ℕ) (hf : ContDiff ℝ n f) (c b : ℝ) :
    iteratedDeriv n (fun x => f (c * x + b)) = fun x => c ^ n * iteratedDeriv n f (c * x + b) := by
  have h1 : ContDiff ℝ n (fun y => f (y + b)) := hf.comp (contDiff_id.add contDiff_const)
  have h := iteratedDeriv_comp_const_mul h1 c
  rw [h]
  funext x
  rw [iteratedDeriv_comp_add_const]

/-- mixed partial derivatives of a ridge function: differentiating `v ^ k * F (c * x + b)` m times in x -/
theorem ridge_step (F : ℝ → ℝ) (m : ℕ) (hF : ContDiff ℝ m F) (v c b x : ℝ) :
    iteratedDeriv m (fun x => v * F (c * x + b)) x = v * (c ^ m * iteratedDeriv m F (c * x + b)) := by
  rw [iteratedDeriv_const_mul_field, affine_chain F m hF]

/-- the affine map sends the ends of the domain to the ends of the basis domain -/
theorem map_ends (x0 xf z0 zf : ℝ) (h : xf ≠ x0) :
    (x0 - x0) * ((zf - z0) / (xf - x0)) + z0 = z0 ∧ (xf - x0) * ((zf - z0) / (xf - x0)) + z0 = zf := by
  have : xf - x0 ≠ 0 := sub_ne_zero.mpr h
  constructor
  · ring
  · field_simp; ring
