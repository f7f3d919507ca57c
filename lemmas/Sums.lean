/- The rules by which vf/sums.py decides equality of finite sums.  A sum ranges over
all values of its binders; its body is 0 outside a finite set. -/
import Mathlib

namespace Sums

open Function
variable {α β R : Type*} [CommRing R]
attribute [local instance] Classical.propDecidable

/-- a body guarded by membership in a finite set has finite support; so has every
summand of it (used for all splittings) -/
theorem guarded_finite (S : Set α) (h : S.Finite) (f : α → R) :
    (support fun x => if x ∈ S then f x else 0).Finite := by
  refine h.subset fun x hx => ?_
  by_contra n
  simp [n] at hx

/-- linearity -/
theorem sum_add (f g : α → R) (hf : (support f).Finite) (hg : (support g).Finite) :
    ∑ᶠ x, (f x + g x) = ∑ᶠ x, f x + ∑ᶠ x, g x := finsum_add_distrib hf hg

theorem sum_neg (f : α → R) : ∑ᶠ x, -f x = -∑ᶠ x, f x := finsum_neg_distrib f

/-- case split: the two guarded halves have finite support if the whole has -/
theorem sum_ite (c : α → Prop) (f g : α → R) (h : (support fun x => if c x then f x else g x).Finite) :
    ∑ᶠ x, (if c x then f x else g x)
      = ∑ᶠ x, (if c x then f x else 0) + ∑ᶠ x, (if ¬ c x then g x else 0) := by
  rw [← finsum_add_distrib]
  · refine finsum_congr fun x => ?_
    by_cases hc : c x <;> simp [hc]
  · refine h.subset fun x hx => ?_
    by_cases hc : c x <;> simp_all
  · refine h.subset fun x hx => ?_
    by_cases hc : c x <;> simp_all

/-- a factor that does not depend on the binder; a product of sums -/
theorem mul_sum (r : R) (f : α → R) (h : (support f).Finite) : r * ∑ᶠ x, f x = ∑ᶠ x, r * f x :=
  mul_finsum' f r h

/-- flattening of nested sums: both orders are the sum over pairs -/
theorem sum_sum (f : α × β → R) (h : (support f).Finite) : ∑ᶠ x, ∑ᶠ y, f (x, y) = ∑ᶠ p, f p :=
  (finsum_curry f h).symm

theorem sum_comm (f : α → β → R) (h : (support fun p : α × β => f p.1 p.2).Finite) :
    ∑ᶠ x, ∑ᶠ y, f x y = ∑ᶠ y, ∑ᶠ x, f x y := by
  rw [sum_sum (fun p : α × β => f p.1 p.2) h]
  have h' : (support fun p : β × α => f p.2 p.1).Finite := by
    refine (h.image Prod.swap).subset ?_
    rintro ⟨y, x⟩ hx
    exact ⟨(x, y), hx, rfl⟩
  rw [sum_sum (fun p : β × α => f p.2 p.1) h']
  exact (finsum_comp_equiv (Equiv.prodComm α β) (f := fun p : β × α => f p.2 p.1))

/-- a binder fixed by an equation is eliminated -/
theorem sum_delta (t : α) (f : α → R) : ∑ᶠ x, (if x = t then f x else 0) = f t := by
  rw [finsum_eq_single _ t]
  · simp
  · intro x hx
    simp [hx]

/-- a binder with several components, each fixed (outcomes are pairs) -/
theorem sum_delta_pair (a : α) (b : β) (f : α × β → R) :
    ∑ᶠ p : α × β, (if p.1 = a ∧ p.2 = b then f p else 0) = f (a, b) := by
  rw [finsum_eq_single _ (a, b)]
  · simp
  · rintro ⟨x, y⟩ hx
    rw [if_neg]
    rintro ⟨h1, h2⟩
    exact hx (Prod.ext h1 h2)

/-- renaming and reindexing of a binder by a bijection, e.g. x -> c - x -/
theorem sum_bijection (e : α ≃ β) (f : β → R) : ∑ᶠ x, f (e x) = ∑ᶠ y, f y := finsum_comp_equiv e

theorem sum_reflect (c : ℤ) (f : ℤ → R) : ∑ᶠ x, f (c - x) = ∑ᶠ x, f x :=
  finsum_comp_equiv (Equiv.subLeft c) (f := f)

/-- pointwise equality -/
theorem sum_congr (f g : α → R) (h : ∀ x, f x = g x) : ∑ᶠ x, f x = ∑ᶠ x, g x := finsum_congr h

/-- number of integers in an interval -/
theorem interval (lo hi : ℤ) (r : R) :
    ∑ᶠ x : ℤ, (if lo ≤ x ∧ x < hi then r else 0) = r * (max (hi - lo) 0 : ℤ) := by
  have : ∀ x : ℤ, (if lo ≤ x ∧ x < hi then r else 0) = ∑ᶠ _ : x ∈ Finset.Ico lo hi, r := by
    intro x
    rw [finsum_eq_if]
    simp [Finset.mem_Ico]
  rw [finsum_congr this, finsum_mem_finset_eq_sum]
  rw [Finset.sum_const, Int.card_Ico, nsmul_eq_mul, mul_comm, ← Int.toNat_of_nonneg (le_max_right (hi - lo) 0)]
  congr 1
  rcases le_total (hi - lo) 0 with h | h
  · simp [h, Int.toNat_of_nonpos h]
  · rw [max_eq_left h, ← Int.cast_natCast, Int.toNat_of_nonneg h]

/-- non-negative summands -/
theorem sum_nonneg (f : α → ℤ) (h : ∀ x, 0 ≤ f x) : 0 ≤ ∑ᶠ x, f x := finsum_nonneg h

/-- and some of them positive -/
theorem sum_pos (f : α → ℤ) (h : ∀ x, 0 ≤ f x) (fin : (support f).Finite) (x : α) (hx : 0 < f x) :
    0 < ∑ᶠ x, f x := finsum_pos h ⟨x, hx⟩ fin

end Sums
