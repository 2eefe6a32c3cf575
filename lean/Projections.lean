import Mathlib.Analysis.InnerProductSpace.Basic
import Mathlib.Algebra.BigOperators.Group.List.Basic

/-! The two lemmas that turn the obligations of C05 into the error bounds. -/

variable {E : Type*} [NormedAddCommGroup E] [InnerProductSpace ℝ E]

/-- an orthogonal projection, as a map -/
structure IsProj (P : E →ₗ[ℝ] E) : Prop where
  idem : ∀ x, P (P x) = P x
  symm : ∀ x y, inner ℝ (P x) y = inner ℝ x (P y)

theorem IsProj.pythagoras {P : E →ₗ[ℝ] E} (h : IsProj P) (x y : E) :
    ‖x - P y‖ ^ 2 = ‖x - P x‖ ^ 2 + ‖P (x - y)‖ ^ 2 := by
  have e : x - P y = (x - P x) + P (x - y) := by simp [map_sub]
  have o : inner ℝ (x - P x) (P (x - y)) = 0 := by
    rw [← h.symm, map_sub, h.idem, sub_self, inner_zero_left]
  rw [e, sq, sq, sq]
  exact norm_add_sq_eq_norm_sq_add_norm_sq_of_inner_eq_zero _ _ o

theorem IsProj.norm_le {P : E →ₗ[ℝ] E} (h : IsProj P) (x : E) : ‖P x‖ ^ 2 ≤ ‖x‖ ^ 2 := by
  have := h.pythagoras x 0
  simp at this
  nlinarith [sq_nonneg ‖x - P x‖]

/-- parallel scheme: the error of a product of projections is at most the sum of the errors -/
theorem parallel (A : E) (l : List (E →ₗ[ℝ] E)) (h : ∀ P ∈ l, IsProj P) :
    ‖A - l.foldr (fun P x => P x) A‖ ^ 2 ≤ (l.map fun P => ‖A - P A‖ ^ 2).sum := by
  induction l with
  | nil => simp
  | cons P l ih =>
    have hP := h P (by simp)
    have hl := ih (fun Q hQ => h Q (by simp [hQ]))
    simp only [List.foldr_cons, List.map_cons, List.sum_cons]
    rw [hP.pythagoras]
    have := hP.norm_le (A - l.foldr (fun P x => P x) A)
    linarith

/-- parallel scheme, with the tolerances -/
theorem parallel_tol (A : E) (tol : ℝ) (l : List ((E →ₗ[ℝ] E) × ℝ)) (h : ∀ q ∈ l, IsProj q.1)
    (ht : ∀ q ∈ l, ‖A - q.1 A‖ ^ 2 ≤ q.2 ^ 2 * ‖A‖ ^ 2)
    (hs : (l.map fun q => q.2 ^ 2).sum ≤ tol ^ 2) (h0 : 0 ≤ tol) :
    ‖A - (l.map Prod.fst).foldr (fun P x => P x) A‖ ≤ tol * ‖A‖ := by
  have h1 := parallel A (l.map Prod.fst) (by
    intro P hP
    obtain ⟨q, hq, rfl⟩ := List.mem_map.1 hP
    exact h q hq)
  have h2 : ((l.map Prod.fst).map fun P => ‖A - P A‖ ^ 2).sum ≤ (l.map fun q => q.2 ^ 2).sum * ‖A‖ ^ 2 := by
    clear h1 hs h
    induction l with
    | nil => simp
    | cons q l ih =>
      have a := ht q (by simp)
      have b := ih (fun r hr => ht r (by simp [hr]))
      simp only [List.map_cons, List.sum_cons, add_mul]
      linarith
  have h3 : ‖A - (l.map Prod.fst).foldr (fun P x => P x) A‖ ^ 2 ≤ (tol * ‖A‖) ^ 2 := by
    calc _ ≤ _ := h1
      _ ≤ _ := h2
      _ ≤ tol ^ 2 * ‖A‖ ^ 2 := by gcongr
      _ = _ := by ring
  exact (sq_le_sq₀ (norm_nonneg _) (by positivity)).1 h3

/-- sequential scheme: energies `e j` of the successive tensors -/
theorem sequential_energy (t : ℕ → ℝ) (e : ℕ → ℝ) (m : ℕ) (he : ∀ j, 0 ≤ e j)
    (hle : ∀ j < m, e (j + 1) ≤ e j)
    (h : ∀ j < m, e j - e (j + 1) ≤ t j ^ 2 * e j) :
    e 0 - e m ≤ (∑ j ∈ Finset.range m, t j ^ 2) * e 0 := by
  induction m with
  | zero => simp
  | succ m ih =>
    have a := ih (fun j hj => hle j (by omega)) (fun j hj => h j (by omega))
    have mono : ∀ k ≤ m, e k ≤ e 0 := by
      intro k
      induction k with
      | zero => intro _; exact le_refl _
      | succ k ihk => intro hk; exact (hle k (by omega)).trans (ihk (by omega))
    have b := h m (by omega)
    have c : t m ^ 2 * e m ≤ t m ^ 2 * e 0 := mul_le_mul_of_nonneg_left (mono m (le_refl _)) (sq_nonneg _)
    rw [Finset.sum_range_succ, add_mul]
    linarith

/-- sequential scheme: a result orthogonal to its error -/
theorem sequential (A y : E) (tol : ℝ) (t : ℕ → ℝ) (e : ℕ → ℝ) (m : ℕ)
    (ho : inner ℝ A y = inner ℝ y y) (h0 : e 0 = ‖A‖ ^ 2) (hm : e m = ‖y‖ ^ 2)
    (he : ∀ j, 0 ≤ e j) (hle : ∀ j < m, e (j + 1) ≤ e j)
    (h : ∀ j < m, e j - e (j + 1) ≤ t j ^ 2 * e j)
    (hs : ∑ j ∈ Finset.range m, t j ^ 2 ≤ tol ^ 2) (h1 : 0 ≤ tol) :
    ‖A - y‖ ≤ tol * ‖A‖ := by
  have a : ‖A - y‖ ^ 2 = ‖A‖ ^ 2 - ‖y‖ ^ 2 := by
    rw [norm_sub_sq_real, ho, real_inner_self_eq_norm_sq]; ring
  have b := sequential_energy t e m he hle h
  have c : ‖A - y‖ ^ 2 ≤ (tol * ‖A‖) ^ 2 := by
    rw [a, ← h0, ← hm]
    calc _ ≤ _ := b
      _ ≤ tol ^ 2 * e 0 := by have := he 0; gcongr
      _ = _ := by rw [h0]; ring
  exact (sq_le_sq₀ (norm_nonneg _) (by positivity)).1 c

#print axioms parallel_tol
#print axioms sequential
