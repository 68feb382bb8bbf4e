/-
The proof rules of mirv about sums, loops and collections, proved by induction once and for all (Lean 4, no library).
Each theorem's name is quoted where mirv/lib.py or mirv/seq.py states the corresponding facts.  Indices of mirv are
integers guarded by 0 ≤ i; here they are naturals, except for the sum axioms, which are stated for all integers.
-/
namespace Mirv

/-- the sum of the first n elements -/
def ps (a : Int → Int) : Nat → Int
  | 0 => 0
  | n+1 => ps a n + a n

/-- psum of mirv -/
def psum (a : Int → Int) (n : Int) : Int := ps a n.toNat

theorem psum_zero (a) : psum a 0 = 0 := rfl

theorem psum_succ (a) (n : Int) (h : n ≥ 0) : psum a (n+1) = psum a n + a n := by
  obtain ⟨k, rfl⟩ := Int.eq_ofNat_of_zero_le h
  show ps a ((k:Int)+1).toNat = ps a (k:Int).toNat + a k
  have : ((k:Int)+1).toNat = k+1 := by omega
  rw [this]; simp [ps]

theorem ps_congr (a b : Int → Int) (n : Nat) (h : ∀ i : Nat, i < n → a i = b i) : ps a n = ps b n := by
  induction n with
  | zero => rfl
  | succ n ih => simp [ps]; rw [ih (fun i hi => h i (by omega)), h n (by omega)]

theorem psum_pointwise (a b : Int → Int) (n : Int) : psum a n = psum b n ∨ ∃ i, i ≥ 0 ∧ i < n ∧ a i ≠ b i := by
  by_cases h : ∃ i, i ≥ 0 ∧ i < n ∧ a i ≠ b i
  · exact Or.inr h
  · left
    apply ps_congr
    intro i hi
    by_cases e : a i = b i
    · exact e
    · exact absurd ⟨(i:Int), by omega, by omega, e⟩ h

theorem ps_mono (a : Int → Int) (m d : Nat) (h : ∀ i : Nat, i < m + d → 0 ≤ a i) : ps a m ≤ ps a (m+d) := by
  induction d with
  | zero => exact Int.le_refl _
  | succ d ih =>
    have h1 := ih (fun i hi => h i (by omega))
    have h2 := h (m+d) (by omega)
    show ps a m ≤ ps a (m+d) + a (m+d : Nat)
    omega

theorem psum_grows (a : Int → Int) (m n : Int) : m < 0 ∨ m > n ∨ psum a m ≤ psum a n ∨ ∃ i, i ≥ 0 ∧ i < n ∧ a i < 0 := by
  by_cases h : ∃ i, i ≥ 0 ∧ i < n ∧ a i < 0
  · exact Or.inr (Or.inr (Or.inr h))
  · by_cases h0 : m < 0
    · exact Or.inl h0
    · by_cases h1 : m > n
      · exact Or.inr (Or.inl h1)
      · refine Or.inr (Or.inr (Or.inl ?_))
        have e : n.toNat = m.toNat + (n.toNat - m.toNat) := by omega
        unfold psum
        rw [e]
        apply ps_mono
        intro i hi
        by_cases z : a i < 0
        · exact absurd ⟨(i:Int), by omega, by omega, z⟩ h
        · omega

theorem ps_ones (a : Int → Int) (n : Nat) (h : ∀ i : Nat, i < n → a i = 1) : ps a n = n := by
  induction n with
  | zero => rfl
  | succ n ih => simp [ps]; rw [ih (fun i hi => h i (by omega)), h n (by omega)]

theorem psum_ones (a : Int → Int) (n : Int) : n < 0 ∨ psum a n = n ∨ ∃ i, i ≥ 0 ∧ i < n ∧ a i ≠ 1 := by
  by_cases h : ∃ i, i ≥ 0 ∧ i < n ∧ a i ≠ 1
  · exact Or.inr (Or.inr h)
  · by_cases h0 : n < 0
    · exact Or.inl h0
    · refine Or.inr (Or.inl ?_)
      have : psum a n = (n.toNat : Int) := by
        apply ps_ones
        intro i hi
        by_cases z : a i = 1
        · exact z
        · exact absurd ⟨(i:Int), by omega, by omega, z⟩ h
      omega

/-! a sum does not depend on the order -/

theorem ps_add (f g : Int → Int) (n : Nat) : ps (fun i => f i + g i) n = ps f n + ps g n := by
  induction n with
  | zero => rfl
  | succ n ih => simp only [ps]; rw [ih]; omega

theorem ps_none (n : Nat) : ps (fun _ => 0) n = 0 := by
  induction n with
  | zero => rfl
  | succ n ih => simp only [ps]; omega

theorem ps_swap (f : Int → Int → Int) (n m : Nat) : ps (fun i => ps (fun k => f i k) m) n = ps (fun k => ps (fun i => f i k) n) m := by
  induction n with
  | zero => simp only [ps]; rw [ps_none]
  | succ n ih => simp only [ps]; rw [ih, ← ps_add]

theorem ps_single (v : Int → Int) (j : Int) (n : Nat) (h : 0 ≤ j) :
    ps (fun i => if i = j then v i else 0) n = if j < n then v j else 0 := by
  induction n with
  | zero => simp only [ps]; rw [if_neg (by omega)]
  | succ n ih =>
    simp only [ps]; rw [ih]
    by_cases e : (n:Int) = j
    · subst e; rw [if_neg (by omega), if_pos rfl, if_pos (by omega)]; omega
    · rw [if_neg e]
      by_cases l : j < n
      · rw [if_pos l, if_pos (by omega)]; omega
      · rw [if_neg l, if_neg (by omega)]; omega

theorem psum_perm (a b p q : Int → Int) (n : Nat)
    (hp : ∀ i : Nat, i < n → 0 ≤ p i ∧ p i < n ∧ q (p i) = i)
    (hq : ∀ i : Nat, i < n → 0 ≤ q i ∧ q i < n ∧ p (q i) = i)
    (hb : ∀ i : Nat, i < n → b i = a (p i)) : psum b n = psum a n := by
  show ps b n = ps a n
  have h1 : ps b n = ps (fun i => ps (fun k => if k = p i then a k else 0) n) n := by
    apply ps_congr
    intro i hi
    obtain ⟨h0, h1, _⟩ := hp i hi
    rw [ps_single a (p i) n h0, if_pos h1, hb i hi]
  have h2 : ps (fun k => ps (fun i => if k = p i then a k else 0) n) n = ps a n := by
    apply ps_congr
    intro k hk
    obtain ⟨g0, g1, g2⟩ := hq k hk
    have h3 : ps (fun i => if (k:Int) = p i then a k else 0) n = ps (fun i => if i = q k then a k else 0) n := by
      apply ps_congr
      intro i hi
      obtain ⟨_, _, e2⟩ := hp i hi
      by_cases e : (k:Int) = p i
      · rw [if_pos e, if_pos (by rw [e, e2])]
      · rw [if_neg e, if_neg (by intro c; rw [c, g2] at e; exact e rfl)]
    rw [h3, ps_single (fun _ => a k) (q k) n g0, if_pos g1]
  rw [h1, ps_swap, h2]

/-! loops: F i is the state before iteration i -/

/-- seq.sums -/
theorem loop_sum (F : Nat → Int) (d : Int → Int) (n : Nat) (h : ∀ i, i < n → F (i+1) = F i + d i) :
    ∀ j, j ≤ n → F j = F 0 + ps d j := by
  intro j
  induction j with
  | zero => intro _; simp [ps]
  | succ j ih => intro hj; rw [h j (by omega), ih (by omega)]; simp only [ps]; omega

structure Seq (α : Type) where
  len : Nat
  arr : Nat → α

def Seq.push {α : Type} (s : Seq α) (x : α) : Seq α := ⟨s.len + 1, fun k => if k = s.len then x else s.arr k⟩

/-- seq.pushes -/
theorem loop_pushes {α : Type} (F : Nat → Seq α) (x : Nat → α) (n : Nat) (h : ∀ i, i < n → F (i+1) = (F i).push (x i)) :
    ∀ j, j ≤ n → (F j).len = (F 0).len + j ∧ (∀ k, (F 0).len ≤ k → k < (F 0).len + j → (F j).arr k = x (k - (F 0).len)) ∧
      (∀ k, k < (F 0).len → (F j).arr k = (F 0).arr k) := by
  intro j
  induction j with
  | zero => intro _; exact ⟨rfl, fun k _ _ => by omega, fun _ _ => rfl⟩
  | succ j ih =>
    intro hj
    obtain ⟨h1, h2, h3⟩ := ih (by omega)
    rw [h j (by omega)]
    refine ⟨?_, ?_, ?_⟩
    · show (F j).len + 1 = _; omega
    · intro k h4 h5
      show (if k = (F j).len then x j else (F j).arr k) = _
      by_cases e : k = (F j).len
      · rw [if_pos e]; congr 1; omega
      · rw [if_neg e]; exact h2 k h4 (by omega)
    · intro k h4
      show (if k = (F j).len then x j else (F j).arr k) = _
      rw [if_neg (by omega)]; exact h3 k h4

open Classical in
/-- seq.some_pushes, and seq.to_seq of a filtered iteration (F 0 empty): Q is `src`, the length before iteration i is `inv i` -/
theorem loop_some_pushes {α : Type} (F : Nat → Seq α) (c : Nat → Prop) (x : Nat → α) (n : Nat)
    (h : ∀ i, i < n → F (i+1) = if c i then (F i).push (x i) else F i) :
    (∀ j, j ≤ n → (F 0).len ≤ (F j).len ∧ (F j).len ≤ (F 0).len + j ∧ (F j).len ≤ (F n).len) ∧
    ∃ Q : Nat → Nat,
      (∀ p, (F 0).len ≤ p → p < (F n).len → Q p < n ∧ c (Q p) ∧ (F (Q p)).len = p ∧ (F n).arr p = x (Q p)) ∧
      (∀ p r, (F 0).len ≤ p → p < r → r < (F n).len → Q p < Q r) ∧
      (∀ p, p < (F 0).len → (F n).arr p = (F 0).arr p) ∧
      (∀ i, i < n → c i → (F i).len < (F n).len ∧ Q (F i).len = i ∧ (F n).arr (F i).len = x i) := by
  induction n with
  | zero =>
    refine ⟨?_, fun _ => 0, ?_, ?_, ?_, ?_⟩
    · intro j hj; have : j = 0 := by omega
      subst this; exact ⟨Nat.le_refl _, by omega, Nat.le_refl _⟩
    · intro p h1 h2; omega
    · intro p r h1 h2 h3; omega
    · intro p _; rfl
    · intro i hi; omega
  | succ n ih =>
    obtain ⟨hl, Q, h1, h2, h3, h4⟩ := ih (fun i hi => h i (by omega))
    have hn := h n (by omega)
    obtain ⟨l1, l2, _⟩ := hl n (Nat.le_refl n)
    by_cases cn : c n
    · rw [if_pos cn] at hn
      have hlen : (F (n+1)).len = (F n).len + 1 := by rw [hn]; rfl
      have harr : ∀ k, (F (n+1)).arr k = if k = (F n).len then x n else (F n).arr k := by intro k; rw [hn]; rfl
      refine ⟨?_, fun p => if p = (F n).len then n else Q p, ?_, ?_, ?_, ?_⟩
      · intro j hj
        by_cases e : j = n+1
        · subst e; exact ⟨by omega, by omega, Nat.le_refl _⟩
        · obtain ⟨a, b, d⟩ := hl j (by omega); exact ⟨a, b, by omega⟩
      · intro p g1 g2
        by_cases e : p = (F n).len
        · subst e; simp only [if_pos]; rw [harr, if_pos rfl]; refine ⟨by omega, cn, ?_, ?_⟩ <;> first | trivial | rfl
        · simp only [if_neg e]; rw [harr, if_neg e]
          obtain ⟨a, b, d, f⟩ := h1 p g1 (by omega); exact ⟨by omega, b, d, f⟩
      · intro p r g1 g2 g3
        by_cases e : r = (F n).len
        · subst e; simp only [if_pos]; rw [if_neg (by omega)]
          exact (h1 p g1 g2).1
        · simp only [if_neg e]; rw [if_neg (by omega)]; exact h2 p r g1 g2 (by omega)
      · intro p g; rw [harr, if_neg (by omega)]; exact h3 p g
      · intro i hi ci
        by_cases e : i = n
        · subst e; refine ⟨by omega, by simp, by rw [harr, if_pos rfl]⟩
        · obtain ⟨a, b, d⟩ := h4 i (by omega) ci
          refine ⟨by omega, ?_, ?_⟩
          · show (if _ = _ then n else Q _) = i
            rw [if_neg (by omega)]; exact b
          · rw [harr, if_neg (by omega)]; exact d
    · rw [if_neg cn] at hn
      rw [hn]
      refine ⟨?_, Q, ?_, h2, h3, ?_⟩
      · intro j hj
        by_cases e : j = n+1
        · subst e; rw [hn]; exact ⟨by omega, by omega, Nat.le_refl _⟩
        · exact hl j (by omega)
      · intro p g1 g2; obtain ⟨a, b, d, f⟩ := h1 p g1 g2; exact ⟨by omega, b, d, f⟩
      · intro i hi ci
        by_cases e : i = n
        · subst e; exact absurd ci cn
        · exact h4 i (by omega) ci

open Classical in
/-- the length of a filtered sequence is the number of those kept before (seq.to_seq: `kept`) -/
theorem filter_count {α : Type} (F : Nat → Seq α) (c : Nat → Prop) (x : Nat → α) (kept : Int → Int) (n : Nat)
    (h : ∀ i, i < n → F (i+1) = if c i then (F i).push (x i) else F i)
    (hk : ∀ i : Nat, i < n → kept i = if c i then 1 else 0) :
    ∀ j, j ≤ n → ((F j).len : Int) = (F 0).len + ps kept j := by
  apply loop_sum (fun j => ((F j).len : Int)) kept n
  intro i hi
  show ((F (i+1)).len : Int) = (F i).len + kept i
  rw [h i hi, hk i hi]
  by_cases e : c i
  · rw [if_pos e, if_pos e]; show (((F i).len + 1 : Nat) : Int) = _; omega
  · rw [if_neg e, if_neg e]; omega

open Classical in
/-- seq.writers: what a map holds under a key was put there by the last iteration that wrote it -/
theorem loop_writers {κ β : Type} (F : Nat → κ → β) (K : Nat → κ → Prop) (n : Nat)
    (h : ∀ i, i < n → ∀ k, ¬ K i k → F (i+1) k = F i k) :
    ∃ W : Nat → κ → Nat, ∀ j, j ≤ n → ∀ k,
      (F j k = F 0 k ∧ ∀ u, u < j → ¬ K u k) ∨
      (W j k < j ∧ K (W j k) k ∧ F j k = F (W j k + 1) k ∧ ∀ u, W j k < u → u < j → ¬ K u k) := by
  have key : ∀ j, j ≤ n → ∀ k, ∃ w,
      (F j k = F 0 k ∧ ∀ u, u < j → ¬ K u k) ∨
      (w < j ∧ K w k ∧ F j k = F (w + 1) k ∧ ∀ u, w < u → u < j → ¬ K u k) := by
    intro j
    induction j with
    | zero => intro _ k; exact ⟨0, Or.inl ⟨rfl, fun u hu => by omega⟩⟩
    | succ j ih =>
      intro hj k
      by_cases e : K j k
      · exact ⟨j, Or.inr ⟨by omega, e, rfl, fun u h1 h2 => by omega⟩⟩
      · obtain ⟨w, hw⟩ := ih (by omega) k
        have hs := h j (by omega) k e
        refine ⟨w, ?_⟩
        cases hw with
        | inl hw =>
          left
          refine ⟨by rw [hs]; exact hw.1, fun u hu => ?_⟩
          by_cases e2 : u = j
          · subst e2; exact e
          · exact hw.2 u (by omega)
        | inr hw =>
          right
          obtain ⟨a, b, d, f⟩ := hw
          refine ⟨by omega, b, by rw [hs]; exact d, fun u h1 h2 => ?_⟩
          by_cases e2 : u = j
          · subst e2; exact e
          · exact f u h1 (by omega)
  exact ⟨fun j k => if hj : j ≤ n then (key j hj k).choose else 0, fun j hj k => by
    simp only [dif_pos hj]; exact (key j hj k).choose_spec⟩

/-- seq.writers, plain_writes: iteration i puts `val i` under `key i` if `c i`, and changes nothing otherwise: what the map holds under a key is the value of
the last iteration that wrote it -- an iteration whose condition fails writes nothing and is not counted -/
theorem loop_plain_writes {κ β : Type} (F : Nat → κ → β) (c : Nat → Prop) (key : Nat → κ) (val : Nat → β) (n : Nat)
    (hw : ∀ i, i < n → c i → F (i+1) (key i) = val i)
    (hf : ∀ i, i < n → ∀ k, ¬ (c i ∧ k = key i) → F (i+1) k = F i k) :
    ∃ W : Nat → κ → Nat, ∀ j, j ≤ n → ∀ k,
      (F j k = F 0 k ∧ ∀ u, u < j → ¬ (c u ∧ k = key u)) ∨
      (W j k < j ∧ (c (W j k) ∧ k = key (W j k) ∧ F j k = val (W j k)) ∧ ∀ u, W j k < u → u < j → ¬ (c u ∧ k = key u)) := by
  obtain ⟨W, hW⟩ := loop_writers F (fun i k => c i ∧ k = key i) n hf
  refine ⟨W, fun j hj k => ?_⟩
  cases hW j hj k with
  | inl h => exact Or.inl h
  | inr h =>
    obtain ⟨a, ⟨b, d⟩, e, f⟩ := h
    refine Or.inr ⟨a, ⟨b, d, ?_⟩, f⟩
    rw [e, d]
    have := hw (W j k) (by omega) b
    rw [← d] at this ⊢
    exact this

/-- a joined storage key (cw-storage-plus): each component but the last after its length in two bytes -/
def joined : List (List Nat) → List Nat
  | [] => []
  | [x] => x
  | x :: y :: r => (x.length / 256 % 256) :: (x.length % 256) :: (x ++ joined (y :: r))

/-- keys of the same number of components are the same text of bytes only if their components are (C04: keys; lib.key_join) -/
theorem joined_keys : ∀ (a b : List (List Nat)), a.length = b.length →
    (∀ x ∈ a, x.length < 65536) → (∀ x ∈ b, x.length < 65536) → joined a = joined b → a = b
  | [], [], _, _, _, _ => rfl
  | [x], [y], _, _, _, h => by simp only [joined] at h; rw [h]
  | x :: y :: r, x' :: y' :: r', hl, ha, hb, h => by
    simp only [joined, List.cons.injEq] at h
    obtain ⟨h1, h2, h3⟩ := h
    have a1 := ha x (by simp)
    have b1 := hb x' (by simp)
    have e : x.length = x'.length := by omega
    obtain ⟨e1, e2⟩ := List.append_inj h3 e
    have := joined_keys (y :: r) (y' :: r') (by simpa using hl) (fun z hz => ha z (List.mem_cons_of_mem _ hz)) (fun z hz => hb z (List.mem_cons_of_mem _ hz)) e2
    rw [e1, this]
  | [], _ :: _, hl, _, _, _ => by simp at hl
  | _ :: _, [], hl, _, _, _ => by simp at hl
  | [_], _ :: _ :: _, hl, _, _, _ => by simp at hl
  | _ :: _ :: _, [_], hl, _, _, _ => by simp at hl

/-- lib.groups: the runs of equal keys of a sequence -/
theorem group_runs {κ : Type} (key : Nat → κ) (n : Nat) :
    ∃ (k : Nat) (b of : Nat → Nat),
      b 0 = 0 ∧ b k = n ∧ (k = 0 ↔ n = 0) ∧
      (∀ g, g < k → b g < b (g+1) ∧ b (g+1) ≤ n) ∧
      (∀ g, g < k → 0 < g → key (b g) ≠ key (b (g-1))) ∧
      (∀ i, i < n → of i < k ∧ b (of i) ≤ i ∧ i < b (of i + 1) ∧ key i = key (b (of i))) := by
  classical
  induction n with
  | zero => exact ⟨0, fun _ => 0, fun _ => 0, rfl, rfl, by simp, fun g hg => by omega, fun g hg => by omega, fun i hi => by omega⟩
  | succ n ih =>
    obtain ⟨k, b, of, h0, h1, h2, h3, h4, h5⟩ := ih
    by_cases e : 0 < n ∧ key n = key (b (k-1))
    · -- the last run grows
      have kp : 0 < k := by
        cases k with
        | zero => have := h2.mp rfl; omega
        | succ _ => omega
      refine ⟨k, fun g => if g = k then n+1 else b g, fun i => if i = n then k-1 else of i, ?_, ?_, ?_, ?_, ?_, ?_⟩
      · show (if 0 = k then n+1 else b 0) = 0; rw [if_neg (by omega)]; exact h0
      · show (if k = k then n+1 else b k) = n+1; rw [if_pos rfl]
      · constructor <;> intro h <;> omega
      · intro g hg
        show (if g = k then n+1 else b g) < (if g+1 = k then n+1 else b (g+1)) ∧ (if g+1 = k then n+1 else b (g+1)) ≤ n+1
        have := h3 g hg
        rw [if_neg (by omega)]
        by_cases e2 : g+1 = k
        · rw [if_pos e2]; exact ⟨by omega, by omega⟩
        · rw [if_neg e2]; exact ⟨this.1, by omega⟩
      · intro g hg gp
        show key (if g = k then n+1 else b g) ≠ key (if g-1 = k then n+1 else b (g-1))
        rw [if_neg (by omega), if_neg (by omega)]; exact h4 g hg gp
      · intro i hi
        by_cases e2 : i = n
        · subst e2
          simp only [if_true]
          have := h3 (k-1) (by omega)
          have kk : k - 1 + 1 = k := by omega
          rw [kk] at this ⊢
          rw [if_neg (by omega)]
          refine ⟨by omega, by omega, by simp, e.2⟩
        · obtain ⟨a, c, d, f⟩ := h5 i (by omega)
          simp only [if_neg e2]
          rw [if_neg (by omega)]
          refine ⟨a, c, ?_, f⟩
          by_cases e3 : of i + 1 = k
          · rw [if_pos e3]; omega
          · rw [if_neg e3]; exact d
    · -- a new run begins
      refine ⟨k+1, fun g => if g = k+1 then n+1 else b g, fun i => if i = n then k else of i, ?_, ?_, ?_, ?_, ?_, ?_⟩
      · show (if 0 = k+1 then n+1 else b 0) = 0; rw [if_neg (by omega)]; exact h0
      · show (if k+1 = k+1 then n+1 else b (k+1)) = n+1; rw [if_pos rfl]
      · constructor <;> intro h <;> omega
      · intro g hg
        show (if g = k+1 then n+1 else b g) < (if g+1 = k+1 then n+1 else b (g+1)) ∧ (if g+1 = k+1 then n+1 else b (g+1)) ≤ n+1
        rw [if_neg (by omega)]
        by_cases e2 : g = k
        · subst e2; rw [if_pos rfl, h1]; exact ⟨by omega, by omega⟩
        · rw [if_neg (by omega)]; have := h3 g (by omega); exact ⟨this.1, by omega⟩
      · intro g hg gp
        show key (if g = k+1 then n+1 else b g) ≠ key (if g-1 = k+1 then n+1 else b (g-1))
        rw [if_neg (by omega), if_neg (by omega)]
        by_cases e2 : g = k
        · subst e2
          rw [h1]
          intro c
          have : ¬ n = 0 := by intro z; have := h2.mpr z; omega
          exact e ⟨by omega, c⟩
        · exact h4 g (by omega) gp
      · intro i hi
        by_cases e2 : i = n
        · subst e2
          simp only [if_true]
          rw [if_neg (by omega)]
          exact ⟨by omega, by omega, by omega, by rw [h1]⟩
        · obtain ⟨a, c, d, f⟩ := h5 i (by omega)
          simp only [if_neg e2]
          rw [if_neg (by omega), if_neg (by omega)]
          exact ⟨by omega, c, d, f⟩

end Mirv

#print axioms Mirv.psum_pointwise
#print axioms Mirv.psum_grows
#print axioms Mirv.psum_ones
#print axioms Mirv.psum_perm
#print axioms Mirv.loop_sum
#print axioms Mirv.loop_pushes
#print axioms Mirv.loop_some_pushes
#print axioms Mirv.filter_count
#print axioms Mirv.loop_writers
#print axioms Mirv.loop_plain_writes
#print axioms Mirv.joined_keys
#print axioms Mirv.group_runs
