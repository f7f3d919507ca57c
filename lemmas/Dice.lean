import Mathlib.Data.List.Sort
import Mathlib.Algebra.BigOperators.Group.Finset.Basic
import Mathlib.Algebra.BigOperators.Ring.Finset
import Mathlib.Tactic

/-! The counting recurrences of the contracts count what the properties say.

`faces` are the distinct faces of a die, `c` their multiplicities.  `tuples n g` is the
sum of `g t` over all n-tuples of faces, each weighted by the product of its
multiplicities: with `g` an indicator, the number of weighted n-tuples. -/

namespace Dice

variable (faces : Finset ℤ) (c : ℤ → ℕ)

/-- sum of `g` over the weighted n-tuples of faces -/
def tuples : ℕ → (List ℤ → ℕ) → ℕ
  | 0, g => g []
  | n + 1, g => ∑ x ∈ faces, c x * tuples n (fun t => g (x :: t))

theorem tuples_congr (n : ℕ) (g h : List ℤ → ℕ)
    (e : ∀ t, t.length = n → (∀ x ∈ t, x ∈ faces) → g t = h t) : tuples faces c n g = tuples faces c n h := by
  induction n generalizing g h with
  | zero => exact e [] rfl (by simp)
  | succ n ih =>
    simp only [tuples]
    refine Finset.sum_congr rfl fun x hx => ?_
    rw [ih]
    intro t ht hf
    refine e _ (by simp [ht]) ?_
    intro y hy
    rcases List.mem_cons.1 hy with rfl | hy
    · exact hx
    · exact hf y hy

/-- what a table of counts reached by a step does to a sum: the recurrence
    `new l = Σ_{x, o | step o x = l} c x * old o` used by the contracts -/
def next (S : Finset (List ℤ)) (w : List ℤ → ℕ) (step : List ℤ → ℤ → List ℤ) (l : List ℤ) : ℕ :=
  ∑ x ∈ faces, ∑ o ∈ S, if step o x = l then c x * w o else 0

def nextKeys (S : Finset (List ℤ)) (step : List ℤ → ℤ → List ℤ) : Finset (List ℤ) :=
  faces.biUnion fun x => S.image fun o => step o x

/-- a sum over the new table is the sum of the steps over the old table -/
theorem next_sum (S : Finset (List ℤ)) (w : List ℤ → ℕ) (step : List ℤ → ℤ → List ℤ) (g : List ℤ → ℕ) :
    ∑ l ∈ nextKeys faces S step, next faces c S w step l * g l
      = ∑ x ∈ faces, c x * ∑ o ∈ S, w o * g (step o x) := by
  unfold next
  simp only [Finset.sum_mul]
  rw [Finset.sum_comm]
  refine Finset.sum_congr rfl fun x hx => ?_
  rw [Finset.sum_comm, Finset.mul_sum]
  refine Finset.sum_congr rfl fun o ho => ?_
  rw [Finset.sum_eq_single (step o x)]
  · simp [mul_assoc]
  · intro l _ hl
    simp [Ne.symm hl]
  · intro h
    exfalso
    apply h
    simp only [nextKeys, Finset.mem_biUnion, Finset.mem_image]
    exact ⟨x, hx, o, ho, rfl⟩

/-- sorted lists, as Python's sort gives them -/
def sorted (t : List ℤ) : List ℤ := t.insertionSort (· ≤ ·)

/-- the table after n dice have been inserted: keys and counts -/
def built : ℕ → Finset (List ℤ) × (List ℤ → ℕ)
  | 0 => ({[]}, fun l => if l = [] then 1 else 0)
  | n + 1 =>
    let b := built n
    (nextKeys faces b.1 (fun o x => sorted (o ++ [x])), next faces c b.1 b.2 (fun o x => sorted (o ++ [x])))

theorem sorted_eq_of_perm {a b : List ℤ} (h : a.Perm b) : sorted a = sorted b := by
  refine List.Perm.eq_of_pairwise (le := (· ≤ ·)) ?_ (List.pairwise_insertionSort _ _) (List.pairwise_insertionSort _ _) ?_
  · intro a b _ _ hab hba
    exact le_antisymm hab hba
  · exact ((List.perm_insertionSort _ _).trans h).trans (List.perm_insertionSort _ _).symm

theorem sorted_insert (t : List ℤ) (x : ℤ) : sorted (sorted t ++ [x]) = sorted (x :: t) := by
  refine sorted_eq_of_perm ?_
  refine (List.perm_append_singleton x (sorted t)).trans ?_
  exact List.Perm.cons x (List.perm_insertionSort _ _)

/-- B of the contract: the table after n dice counts the n-tuples by their sorted list -/
theorem built_counts (n : ℕ) (g : List ℤ → ℕ) :
    ∑ l ∈ (built faces c n).1, (built faces c n).2 l * g l = tuples faces c n (fun t => g (sorted t)) := by
  induction n generalizing g with
  | zero => simp [built, tuples, sorted]
  | succ n ih =>
    simp only [built, tuples]
    rw [next_sum]
    refine Finset.sum_congr rfl fun x _ => ?_
    rw [ih (fun o => g (sorted (o ++ [x])))]
    simp only [sorted_insert]

/-- dropping the lowest of the S highest and one more gives the S highest of all -/
theorem insert_drop (s : List ℤ) (hs : s.Pairwise (· ≤ ·)) (x : ℤ) (m : ℕ) (hm : m ≤ s.length) :
    (List.orderedInsert (· ≤ ·) x (s.drop m)).drop 1 = (List.orderedInsert (· ≤ ·) x s).drop (m + 1) := by
  induction s generalizing m with
  | nil =>
    have : m = 0 := by simpa using hm
    subst this
    simp
  | cons a s ih =>
    cases m with
    | zero => simp
    | succ m =>
      have hs' := (List.pairwise_cons.1 hs)
      simp only [List.drop_succ_cons]
      by_cases h : x ≤ a
      · -- x goes first: everything kept is at least a ≥ x
        have e0 : List.orderedInsert (· ≤ ·) x (a :: s) = x :: a :: s := List.orderedInsert_cons_of_le _ _ h
        rw [e0]
        have hle : ∀ b ∈ s.drop m, x ≤ b := fun b hb => h.trans (hs'.1 b (List.mem_of_mem_drop hb))
        have : List.orderedInsert (· ≤ ·) x (s.drop m) = x :: s.drop m := by
          cases hd : s.drop m with
          | nil => simp
          | cons b t =>
            exact List.orderedInsert_cons_of_le _ _ (hle b (by simp [hd]))
        rw [this]
        simp
      · have : List.orderedInsert (· ≤ ·) x (a :: s) = a :: List.orderedInsert (· ≤ ·) x s := by
          simp [List.orderedInsert, h]
        rw [this, List.drop_succ_cons]
        exact ih hs'.2 m (by simpa using hm)

/-- dropping the highest of the S lowest and one more gives the S lowest of all -/
theorem insert_take (s : List ℤ) (x : ℤ) (m : ℕ) (hm : m ≤ s.length) :
    (List.orderedInsert (· ≤ ·) x (s.take m)).take m = (List.orderedInsert (· ≤ ·) x s).take m := by
  induction s generalizing m with
  | nil =>
    have : m = 0 := by simpa using hm
    subst this
    simp
  | cons a s ih =>
    cases m with
    | zero => simp
    | succ m =>
      have hm' : m ≤ s.length := by simpa using hm
      by_cases h : x ≤ a
      · have e0 : ∀ l : List ℤ, List.orderedInsert (· ≤ ·) x (a :: l) = x :: a :: l := fun l =>
          List.orderedInsert_cons_of_le _ _ h
        rw [List.take_succ_cons, e0, e0, List.take_succ_cons, List.take_succ_cons]
        congr 1
        cases m with
        | zero => simp
        | succ m =>
          simp only [List.take_succ_cons, List.take_take]
          congr 2
          omega
      · have e1 : List.orderedInsert (· ≤ ·) x (a :: s) = a :: List.orderedInsert (· ≤ ·) x s := by
          simp [List.orderedInsert, h]
        have e2 : List.orderedInsert (· ≤ ·) x ((a :: s).take (m + 1)) = a :: List.orderedInsert (· ≤ ·) x (s.take m) := by
          simp [List.orderedInsert, h]
        rw [e1, e2, List.take_succ_cons, List.take_succ_cons, ih m hm']

theorem sorted_cons (x : ℤ) (t : List ℤ) : sorted (x :: t) = List.orderedInsert (· ≤ ·) x (sorted t) := rfl

theorem sorted_of_pairwise {s : List ℤ} (h : s.Pairwise (· ≤ ·)) : sorted s = s :=
  h.insertionSort_eq

theorem sorted_pairwise (t : List ℤ) : (sorted t).Pairwise (· ≤ ·) := List.pairwise_insertionSort _ _

theorem sorted_length (t : List ℤ) : (sorted t).length = t.length := List.length_insertionSort _ _

theorem sorted_snoc {s : List ℤ} (h : s.Pairwise (· ≤ ·)) (x : ℤ) :
    sorted (s ++ [x]) = List.orderedInsert (· ≤ ·) x s := by
  rw [sorted_eq_of_perm (List.perm_append_singleton x s), sorted_cons, sorted_of_pairwise h]

/-- the K highest, the K lowest dice of a tuple, in order -/
def highest (k : ℕ) (t : List ℤ) : List ℤ := (sorted t).drop (t.length - k)
def lowest (k : ℕ) (t : List ℤ) : List ℤ := (sorted t).take k

def keepStep (o : List ℤ) (x : ℤ) : List ℤ := (sorted (o ++ [x])).drop 1
def dropStep (o : List ℤ) (x : ℤ) : List ℤ := (sorted (o ++ [x])).take ((o ++ [x]).length - 1)

theorem highest_cons (k : ℕ) (x : ℤ) (t : List ℤ) (h : k ≤ t.length) :
    keepStep (highest k t) x = highest k (x :: t) := by
  unfold keepStep highest
  rw [sorted_snoc ((sorted_pairwise t).sublist (List.drop_sublist _ _))]
  rw [insert_drop _ (sorted_pairwise t) x _ (by rw [sorted_length]; omega), sorted_cons]
  congr 1
  simp only [List.length_cons]
  omega

theorem lowest_cons (k : ℕ) (x : ℤ) (t : List ℤ) (h : k ≤ t.length) :
    dropStep (lowest k t) x = lowest k (x :: t) := by
  unfold dropStep lowest
  rw [sorted_snoc ((sorted_pairwise t).sublist (List.take_sublist _ _))]
  have : ((List.take k (sorted t) ++ [x]).length - 1) = k := by
    simp [sorted_length, h]
  rw [this, insert_take _ x k (by rw [sorted_length]; omega), sorted_cons]

/-- the table after S dice have been built and m more have been replaced in -/
def kept (step : List ℤ → ℤ → List ℤ) (S : ℕ) : ℕ → Finset (List ℤ) × (List ℤ → ℕ)
  | 0 => built faces c S
  | m + 1 =>
    let b := kept step S m
    (nextKeys faces b.1 step, next faces c b.1 b.2 step)

theorem kept_counts (step : List ℤ → ℤ → List ℤ) (pick : List ℤ → List ℤ) (S : ℕ)
    (base : ∀ t, t.length = S → pick t = sorted t)
    (more : ∀ x t, S ≤ t.length → step (pick t) x = pick (x :: t)) (m : ℕ) (g : List ℤ → ℕ) :
    ∑ l ∈ (kept faces c step S m).1, (kept faces c step S m).2 l * g l
      = tuples faces c (S + m) (fun t => g (pick t)) := by
  induction m generalizing g with
  | zero =>
    simp only [kept, Nat.add_zero, built_counts]
    exact tuples_congr _ _ _ _ _ fun t ht _ => by rw [base t ht]
  | succ m ih =>
    simp only [kept]
    rw [next_sum, ← Nat.add_assoc]
    simp only [tuples]
    refine Finset.sum_congr rfl fun x _ => ?_
    rw [ih (fun o => g (step o x))]
    congr 1
    refine tuples_congr _ _ _ _ _ fun t ht _ => ?_
    show g (step (pick t) x) = g (pick (x :: t))
    rw [more x t (by omega)]

/-- U of the contract, keep: the ways of a total are the weighted N-tuples of faces
    whose K highest dice add up to it -/
theorem keep_counts (n k : ℕ) (h : k ≤ n) (v : ℤ) :
    ∑ l ∈ (kept faces c keepStep k (n - k)).1, (kept faces c keepStep k (n - k)).2 l * (if l.sum = v then 1 else 0)
      = tuples faces c n (fun t => if (highest k t).sum = v then 1 else 0) := by
  rw [kept_counts faces c keepStep (highest k) k ?_ (fun x t => highest_cons k x t) (n - k) (fun l => if l.sum = v then 1 else 0)]
  · rw [Nat.add_sub_cancel' h]
  · intro t ht
    simp [highest, ht]

/-- U of the contract, drop: the ways of a total are the weighted N-tuples of faces
    whose N-K lowest dice (all but the K highest) add up to it -/
theorem drop_counts (n k : ℕ) (h : k ≤ n) (v : ℤ) :
    ∑ l ∈ (kept faces c dropStep (n - k) k).1, (kept faces c dropStep (n - k) k).2 l * (if l.sum = v then 1 else 0)
      = tuples faces c n (fun t => if (lowest (n - k) t).sum = v then 1 else 0) := by
  rw [kept_counts faces c dropStep (lowest (n - k)) (n - k) ?_ (fun x t => lowest_cons (n - k) x t) k (fun l => if l.sum = v then 1 else 0)]
  · rw [Nat.sub_add_cancel h]
  · intro t ht
    rw [lowest, List.take_of_length_le]
    rw [sorted_length, ht]

/-- plain dice: POW of the contract counts the weighted n-tuples with a given sum -/
def pow : ℕ → ℤ → ℕ
  | 0, v => if v = 0 then 1 else 0
  | n + 1, v => ∑ x ∈ faces, c x * pow n (v - x)

theorem pow_counts (n : ℕ) (v : ℤ) : pow faces c n v = tuples faces c n (fun t => if t.sum = v then 1 else 0) := by
  induction n generalizing v with
  | zero => simp [pow, tuples, eq_comm]
  | succ n ih =>
    simp only [pow, tuples]
    refine Finset.sum_congr rfl fun x _ => ?_
    rw [ih]
    congr 1
    refine tuples_congr _ _ _ _ _ fun t _ _ => ?_
    simp only [List.sum_cons]
    congr 1
    simp only [eq_iff_iff]
    constructor <;> intro h <;> linarith

/-- extremes: the sum of dice that count lies between their number times the extreme faces -/
theorem sum_le (l : List ℤ) (m : ℤ) (h : ∀ x ∈ l, x ≤ m) : l.sum ≤ l.length * m := by
  induction l with
  | nil => simp
  | cons a l ih =>
    have := ih fun x hx => h x (by simp [hx])
    have ha := h a (by simp)
    simp only [List.sum_cons, List.length_cons]
    push_cast
    linarith

theorem le_sum (l : List ℤ) (m : ℤ) (h : ∀ x ∈ l, m ≤ x) : l.length * m ≤ l.sum := by
  induction l with
  | nil => simp
  | cons a l ih =>
    have := ih fun x hx => h x (by simp [hx])
    have ha := h a (by simp)
    simp only [List.sum_cons, List.length_cons]
    push_cast
    linarith

theorem mem_highest {k : ℕ} {t : List ℤ} {x : ℤ} (h : x ∈ highest k t) : x ∈ t :=
  (List.perm_insertionSort _ t).mem_iff.1 (List.mem_of_mem_drop h)

theorem mem_lowest {k : ℕ} {t : List ℤ} {x : ℤ} (h : x ∈ lowest k t) : x ∈ t :=
  (List.perm_insertionSort _ t).mem_iff.1 (List.mem_of_mem_take h)

theorem length_highest {k : ℕ} {t : List ℤ} (h : k ≤ t.length) : (highest k t).length = k := by
  simp only [highest, List.length_drop, sorted_length]
  omega

theorem length_lowest {k : ℕ} {t : List ℤ} (h : k ≤ t.length) : (lowest k t).length = k := by
  simp only [lowest, List.length_take, sorted_length]
  omega

theorem highest_le (k : ℕ) (t : List ℤ) (h : k ≤ t.length) (m : ℤ) (hm : ∀ x ∈ t, x ≤ m) : (highest k t).sum ≤ k * m := by
  simpa [length_highest h] using sum_le (highest k t) m fun x hx => hm x (mem_highest hx)

theorem le_highest (k : ℕ) (t : List ℤ) (h : k ≤ t.length) (m : ℤ) (hm : ∀ x ∈ t, m ≤ x) : k * m ≤ (highest k t).sum := by
  simpa [length_highest h] using le_sum (highest k t) m fun x hx => hm x (mem_highest hx)

theorem lowest_le (k : ℕ) (t : List ℤ) (h : k ≤ t.length) (m : ℤ) (hm : ∀ x ∈ t, x ≤ m) : (lowest k t).sum ≤ k * m := by
  simpa [length_lowest h] using sum_le (lowest k t) m fun x hx => hm x (mem_lowest hx)

theorem le_lowest (k : ℕ) (t : List ℤ) (h : k ≤ t.length) (m : ℤ) (hm : ∀ x ∈ t, m ≤ x) : k * m ≤ (lowest k t).sum := by
  simpa [length_lowest h] using le_sum (lowest k t) m fun x hx => hm x (mem_lowest hx)

/-- and both are attained by the tuple that shows the extreme face on every die -/
theorem replicate_attains (n k : ℕ) (h : k ≤ n) (m : ℤ) :
    (highest k (List.replicate n m)).sum = k * m ∧ (lowest k (List.replicate n m)).sum = k * m := by
  have hm : ∀ x ∈ List.replicate n m, x = m := fun x hx => List.eq_of_mem_replicate hx
  have hl : k ≤ (List.replicate n m).length := by simpa using h
  exact ⟨le_antisymm (highest_le k _ hl m fun x hx => (hm x hx).le) (le_highest k _ hl m fun x hx => (hm x hx).ge),
    le_antisymm (lowest_le k _ hl m fun x hx => (hm x hx).le) (le_lowest k _ hl m fun x hx => (hm x hx).ge)⟩

/-- list facts the contracts use -/
theorem sorted_drop_sorted (l : List ℤ) (n : ℕ) : sorted ((sorted l).drop n) = (sorted l).drop n :=
  sorted_of_pairwise ((sorted_pairwise l).sublist (List.drop_sublist _ _))
theorem sorted_take_sorted (l : List ℤ) (n : ℕ) : sorted ((sorted l).take n) = (sorted l).take n :=
  sorted_of_pairwise ((sorted_pairwise l).sublist (List.take_sublist _ _))
theorem sorted_one (x : ℤ) : sorted ([] ++ [x]) = [x] := rfl
theorem drop_one (x : ℤ) : ([] ++ [x]).drop 1 = ([] : List ℤ) := rfl
theorem take_zero (l : List ℤ) : l.take 0 = [] := rfl
theorem sum_of_none (l : List ℤ) (h : l.length = 0) : l.sum = 0 := by
  rw [List.length_eq_zero_iff.1 h]; rfl

end Dice

#print axioms Dice.keep_counts
#print axioms Dice.drop_counts
#print axioms Dice.pow_counts
#print axioms Dice.replicate_attains
