/- Counting facts about duplicate-free lists used by the contracts (pyvc/theory.py: card_uniq_lemma, card_split). -/
import Mathlib.Data.List.Basic
import Mathlib.Data.Finset.Card

theorem card_uniq {α : Type} [DecidableEq α] (L M : List α) (hL : L.Nodup) (hM : M.Nodup)
    (h : ∀ x, x ∈ L ↔ x ∈ M) : L.length = M.length := by
  have : L.toFinset = M.toFinset := by ext x; simp [h x]
  rw [← List.toFinset_card_of_nodup hL, ← List.toFinset_card_of_nodup hM, this]

theorem card_split_le {α : Type} [DecidableEq α] (A B L : List α) (hA : A.Nodup) (hB : B.Nodup) (hL : L.Nodup)
    (hAL : ∀ x, x ∈ A → x ∈ L ∧ ¬ x ∈ B) (hBL : ∀ x, x ∈ B → x ∈ L) : A.length + B.length ≤ L.length := by
  have hd : Disjoint A.toFinset B.toFinset := by
    rw [Finset.disjoint_left]; intro x hx hy; simp at hx hy; exact (hAL x hx).2 hy
  have hs : A.toFinset ∪ B.toFinset ⊆ L.toFinset := by
    intro x hx; simp at hx ⊢; rcases hx with h | h
    · exact (hAL x h).1
    · exact hBL x h
  have := Finset.card_le_card hs
  rwa [Finset.card_union_of_disjoint hd, List.toFinset_card_of_nodup hA, List.toFinset_card_of_nodup hB, List.toFinset_card_of_nodup hL] at this

theorem card_split_eq {α : Type} [DecidableEq α] (A B L : List α) (hA : A.Nodup) (hB : B.Nodup) (hL : L.Nodup)
    (hAL : ∀ x, x ∈ A → x ∈ L ∧ ¬ x ∈ B) (hBL : ∀ x, x ∈ B → x ∈ L) :
    A.length + B.length = L.length ↔ ∀ x, x ∈ L → x ∈ A ∨ x ∈ B := by
  have hd : Disjoint A.toFinset B.toFinset := by
    rw [Finset.disjoint_left]; intro x hx hy; simp at hx hy; exact (hAL x hx).2 hy
  have hs : A.toFinset ∪ B.toFinset ⊆ L.toFinset := by
    intro x hx; simp at hx ⊢; rcases hx with h | h
    · exact (hAL x h).1
    · exact hBL x h
  have hc : (A.toFinset ∪ B.toFinset).card = A.length + B.length := by
    rw [Finset.card_union_of_disjoint hd, List.toFinset_card_of_nodup hA, List.toFinset_card_of_nodup hB]
  constructor
  · intro h
    have he : A.toFinset ∪ B.toFinset = L.toFinset :=
      Finset.eq_of_subset_of_card_le hs (by rw [hc, h, List.toFinset_card_of_nodup hL])
    intro x hx
    have : x ∈ A.toFinset ∪ B.toFinset := by rw [he]; simpa using hx
    simpa using this
  · intro h
    have he : A.toFinset ∪ B.toFinset = L.toFinset := by
      apply Finset.Subset.antisymm hs
      intro x hx; simp at hx ⊢; exact h x hx
    rw [← hc, he, List.toFinset_card_of_nodup hL]
