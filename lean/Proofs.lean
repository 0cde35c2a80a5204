variable (E : Type) [Inhabited E]
theorem att_nat (a : List E) (i : Int) (h : i.toNat < a.length) : att a i = a[i.toNat] := by
  simp [att, List.getD_eq_getElem?_getD, h]
theorem p0 : Ax0 E := by intro a; simp only [len]; omega
theorem p1 : Ax1 E := by simp [Ax1, len, emp]
theorem p2 : Ax2 E := by intro a h; simp only [len] at h; have : a.length = 0 := by omega
                         simpa [emp] using List.eq_nil_of_length_eq_zero this
theorem p3 : Ax3 E := by intro x; simp [len, unit, att]
theorem p4 : Ax4 E := by intro a b; simp [len, cat]
theorem p5 : Ax5 E := by
  intro a b i ⟨h0, h1⟩; simp only [len] at h1
  have h : i.toNat < a.length := by omega
  rw [att_nat E a i h, att_nat E (cat a b) i (by simp [cat]; omega)]; simp [cat, List.getElem_append, h]
theorem p6 : Ax6 E := by
  intro a b i ⟨h0, h1⟩; simp only [len] at h0 h1
  have h : ¬ i.toNat < a.length := by omega
  have e : (i - len a).toNat = i.toNat - a.length := by simp only [len]; omega
  rw [att_nat E (cat a b) i (by simp [cat]; omega), att_nat E b (i - len a) (by rw [e]; omega)]
  simp [cat, List.getElem_append, h, e]
theorem p7 : Ax7 E := by intro a i j ⟨h0, h1, h2⟩; simp only [len] at h2; simp [len, sl]; omega
theorem p8 : Ax8 E := by
  intro a i j n ⟨h0, h1, h2, h3, h4⟩; simp only [len] at h2
  have e : (n + i).toNat = i.toNat + n.toNat := by omega
  rw [att_nat E (sl a i j) n (by simp [sl]; omega), att_nat E a (n + i) (by omega)]
  simp [sl, e]
theorem p9 : Ax9 E := by
  intro a i x ⟨h0, h1⟩; simp only [len] at h1
  refine ⟨by simp [len, upd], ?_⟩
  rw [att_nat E (upd a i x) i (by simp [upd]; omega)]; simp [upd]
theorem p10 : Ax10 E := by
  intro a i x n ⟨h0, h1, h2, h3, h4⟩; simp only [len] at h1 h3
  rw [att_nat E (upd a i x) n (by simp [upd]; omega), att_nat E a n (by omega)]
  simp only [upd]; rw [List.getElem_set_ne]; omega
theorem p11 : Ax11 E := by intro x n h; simp [len, rep]; omega
theorem p12 : Ax12 E := by
  intro x n i ⟨h0, h1⟩
  rw [att_nat E (rep x n) i (by simp [rep]; omega)]; simp [rep]
theorem p13 : Ax13 E := by intro a; simp [len, rev]
theorem p14 : Ax14 E := by
  intro a i ⟨h0, h1⟩; simp only [len] at h1
  have e : (len a - 1 - i).toNat = a.length - 1 - i.toNat := by simp only [len]; omega
  rw [att_nat E (rev a) i (by simp [rev]; omega), att_nat E a (len a - 1 - i) (by rw [e]; omega)]
  simp [rev, e]
theorem p15 : Ax15 E := by intro a b h; exact h
theorem ext (a b : List E) (hl : len a = len b) (h : ∀ i : Int, 0 ≤ i → i < len a → att a i = att b i) : a = b := by
  simp only [len] at hl h
  apply List.ext_getElem (by omega)
  intro n h1 h2
  have := h n (by omega) (by omega)
  rw [att_nat E a n (by simpa using h1), att_nat E b n (by simpa using h2)] at this
  simpa using this
theorem p16 : Ax16 E := by
  intro a b hn
  by_cases hl : len a = len b
  · right
    have h : ∃ i : Int, 0 ≤ i ∧ i < len a ∧ att a i ≠ att b i := by
      refine Classical.byContradiction fun hc => hn (ext E a b hl fun i h0 h1 => ?_)
      exact Classical.byContradiction fun hd => hc ⟨i, h0, h1, hd⟩
    simp only [diff, h, dif_pos]
    exact Classical.choose_spec h
  · left; exact hl
theorem p17 : Ax17 E := by
  intro a x hx
  have h : ∃ i : Int, 0 ≤ i ∧ i < len a ∧ att a i = x := by
    obtain ⟨n, hn, he⟩ := List.getElem_of_mem hx
    refine ⟨n, by omega, by simp only [len]; omega, ?_⟩
    rw [att_nat E a n (by simpa using hn)]; simpa using he
  simp only [wit, h, dif_pos]
  exact Classical.choose_spec h
theorem p18 : Ax18 E := by
  intro a x i ⟨h0, h1, h2⟩; simp only [len] at h1
  rw [att_nat E a i (by omega)] at h2
  exact h2 ▸ List.getElem_mem _
