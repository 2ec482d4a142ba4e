/-
The lemmas on texts and lists of words that gover's simplifier applies (gover/str.go),
proved for texts over any alphabet and any one-character separator c. split, join and cut
stand for strings.Split, strings.Join and strings.Cut.
-/
set_option linter.unusedSectionVars false
namespace Words
variable {α : Type} [DecidableEq α]

def split (c : α) : List α → List (List α)
  | [] => [[]]
  | a :: s => if a = c then [] :: split c s else
    match split c s with
    | [] => [[a]]
    | w :: ws => (a :: w) :: ws

def join (c : α) : List (List α) → List α
  | [] => []
  | [w] => w
  | w :: v :: ws => w ++ c :: join c (v :: ws)

/-- what is before the first c, what is after it, and whether there is one -/
def cut (c : α) : List α → List α × List α × Bool
  | [] => ([], [], false)
  | a :: s => if a = c then ([], s, true) else
    let (b, r, f) := cut c s
    (a :: b, r, f)

/-- splitlen(s, c) ≥ 1 -/
theorem split_ne_nil (c : α) (s : List α) : split c s ≠ [] := by
  cases s with
  | nil => simp [split]
  | cons a s =>
    simp only [split]
    split
    · simp
    · split <;> simp

/-- no element of a split contains the separator -/
theorem sep_not_mem (c : α) (s : List α) : ∀ w ∈ split c s, c ∉ w := by
  induction s with
  | nil => simp [split]
  | cons a s ih =>
    simp only [split]
    split
    · simpa using ih
    · rename_i h
      split
      · simp; exact fun e => h e.symm
      · rename_i w ws e
        rw [e] at ih
        intro v hv
        simp at hv
        rcases hv with rfl | hv
        · have := ih w (by simp)
          simp; exact ⟨fun e => h e.symm, this⟩
        · exact ih v (by simp [hv])

/-- joinarr(splitarr(s, c), 0, splitlen(s, c), c) = s -/
theorem join_split (c : α) (s : List α) : join c (split c s) = s := by
  induction s with
  | nil => simp [split, join]
  | cons a s ih =>
    simp only [split]
    split
    · rename_i h
      subst h
      cases e : split a s with
      | nil => exact absurd e (split_ne_nil a s)
      | cons w ws => rw [e] at ih; simp [join, ih]
    · split
      · rename_i e; exact absurd e (split_ne_nil c s)
      · rename_i w ws e
        rw [e] at ih
        cases ws with
        | nil => simp [join] at ih ⊢; exact ih
        | cons v vs => simp [join] at ih ⊢; exact ih

theorem split_word (c : α) (w : List α) (h : c ∉ w) : split c w = [w] := by
  induction w with
  | nil => simp [split]
  | cons a w ih =>
    simp at h
    have : a ≠ c := fun e => h.1 e.symm
    simp [split, this, ih h.2]

theorem split_append (c : α) (w r : List α) (h : c ∉ w) : split c (w ++ c :: r) = w :: split c r := by
  induction w with
  | nil => simp [split]
  | cons a w ih =>
    simp at h
    have : a ≠ c := fun e => h.1 e.symm
    simp [split, this, ih h.2]

/-- splitting what was joined gives the words back -/
theorem split_join (c : α) (l : List (List α)) (h : ∀ w ∈ l, c ∉ w) (n : l ≠ []) : split c (join c l) = l := by
  induction l with
  | nil => exact absurd rfl n
  | cons w ws ih =>
    cases ws with
    | nil => simp [join]; exact split_word c w (h w (by simp))
    | cons v vs =>
      simp only [join]
      rw [split_append c w _ (h w (by simp)), ih (fun x hx => h x (by simp [hx])) (by simp)]

/-- two lists of words that read the same when joined are the same -/
theorem join_inj (c : α) (l m : List (List α)) (hl : ∀ w ∈ l, c ∉ w) (hm : ∀ w ∈ m, c ∉ w)
    (nl : l ≠ []) (nm : m ≠ []) : join c l = join c m ↔ l = m :=
  ⟨fun h => by rw [← split_join c l hl nl, h, split_join c m hm nm], fun h => by rw [h]⟩

/-- preRemoved: a non-empty word occurs in a list from which t was removed exactly when it
is not t and occurs in the list -/
theorem pre_removed (c : α) (s t x : List α) (hx : x ≠ []) :
    x ∈ split c (join c ((split c s).filter (fun w => w ≠ t))) ↔ x ≠ t ∧ x ∈ split c s := by
  by_cases n : (split c s).filter (fun w => w ≠ t) = []
  · have e : split c (join c ([] : List (List α))) = [[]] := by simp [join, split]
    rw [n, e]
    have : ∀ w ∈ split c s, w = t := by simpa using n
    constructor
    · intro h; simp at h; exact absurd h hx
    · intro ⟨h1, h2⟩; exact absurd (this x h2) h1
  · rw [split_join c _ (fun w hw => sep_not_mem c s w (List.mem_filter.mp hw).1) n]
    simp [List.mem_filter, and_comm]

/-- removing a word that is not there changes nothing -/
theorem remove_none (c : α) (s t : List α) (h : t ∉ split c s) :
    join c ((split c s).filter (fun w => w ≠ t)) = s := by
  have : (split c s).filter (fun w => w ≠ t) = split c s := by
    rw [List.filter_eq_self]
    intro w hw
    simp
    intro e
    exact h (e ▸ hw)
  rw [this, join_split]

/-- contains(s, c) = (1 < splitlen(s, c)) -/
theorem mem_iff_split (c : α) (s : List α) : c ∈ s ↔ 1 < (split c s).length := by
  induction s with
  | nil => simp [split]
  | cons a s ih =>
    simp only [split]
    split
    · rename_i h
      have := split_ne_nil c s
      subst h
      cases e : split a s with
      | nil => exact absurd e this
      | cons w ws => simp
    · rename_i h
      have h' : c ≠ a := fun e => h e.symm
      split
      · rename_i e; exact absurd e (split_ne_nil c s)
      · rename_i w ws e
        rw [e] at ih
        simp [h', ih]

/-- a text without separator is its only word -/
theorem split_one (c : α) (s : List α) (h : (split c s).length = 1) : split c s = [s] :=
  split_word c s (fun m => by have := (mem_iff_split c s).mp m; omega)

/-- cut: before is the first word, after is the rest joined, found is whether there are two -/
theorem cut_eq (c : α) (s : List α) :
    cut c s = ((split c s).head (split_ne_nil c s), join c (split c s).tail, decide (1 < (split c s).length)) := by
  induction s with
  | nil => simp [cut, split, join]
  | cons a s ih =>
    by_cases h : a = c
    · subst h
      have := join_split a s
      cases e : split a s with
      | nil => exact absurd e (split_ne_nil a s)
      | cons w ws => rw [e] at this; simp [cut, split, e, this]
    · cases e : split c s with
      | nil => exact absurd e (split_ne_nil c s)
      | cons w ws =>
        simp only [e] at ih
        simp [cut, split, h, ih, e]

/-- cutafter(s, c, k), what follows the k-th separator, is cut again at its own first one -/
theorem cut_after (c : α) (l : List (List α)) (h : ∀ w ∈ l, c ∉ w) (n : l ≠ []) :
    cut c (join c l) = (l.head n, join c l.tail, decide (1 < l.length)) := by
  have e := split_join c l h n
  rw [cut_eq]
  simp [e]

/-- a prefix of the first part is a prefix of the concatenation -/
theorem prefix_cat (p a b : List α) (h : p <+: a) : p <+: a ++ b := h.trans (List.prefix_append a b)
/-- the same start on both sides -/
theorem prefix_same (p a b : List α) : p ++ a <+: p ++ b ↔ a <+: b := List.prefix_append_right_inj p
/-- equalities: the same start or end on both sides -/
theorem eq_start (p a b : List α) : p ++ a = p ++ b ↔ a = b := List.append_right_inj p
theorem eq_end (p a b : List α) : a ++ p = b ++ p ↔ a = b := List.append_left_inj p
/-- starts that differ -/
theorem ne_start (p q a b : List α) (h : ¬ p <+: q) (h' : ¬ q <+: p) : p ++ a ≠ q ++ b := by
  intro e
  rcases List.append_eq_append_iff.mp e with ⟨x, hx, _⟩ | ⟨x, hx, _⟩
  · exact h ⟨x, hx.symm⟩
  · exact h' ⟨x, hx.symm⟩
/-- s[i:j][k:l] = s[i+k:i+l] within bounds -/
theorem substr_substr (s : List α) (i j k l : Nat) (_ : k ≤ l) (h : i + l ≤ j) :
    (((s.take j).drop i).take l).drop k = (s.take (i + l)).drop (i + k) := by
  rw [List.take_drop, List.take_take, List.drop_drop, Nat.min_eq_left h]
/-- a literal prefix is cut off a concatenation -/
theorem drop_prefix (p s : List α) : (p ++ s).drop p.length = s := by simp

/-- pre(l, n+1, x): the recursive reading of membership -/
theorem pre_succ (l : List α) (n : Nat) (h : n < l.length) (x : α) :
    x ∈ l.take (n + 1) ↔ x ∈ l.take n ∨ l[n] = x := by
  rw [List.take_succ_eq_append_getElem h, List.mem_append, List.mem_singleton]
  exact or_congr Iff.rfl eq_comm
/-- filtarr/filtlen: the recursive reading of removal -/
theorem filt_succ (l : List α) (n : Nat) (h : n < l.length) (x : α) :
    (l.take (n + 1)).filter (fun a => a ≠ x) =
      (l.take n).filter (fun a => a ≠ x) ++ (if l[n] ≠ x then [l[n]] else []) := by
  rw [List.take_succ_eq_append_getElem h, List.filter_append]
  by_cases e : l[n] = x <;> simp [e]
end Words
