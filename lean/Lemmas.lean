/-! Arithmetic lemmas used by the contracts, checked by the Lean kernel on every run. -/

/-- prefix sums: the offset of block `m` -/
def off (len : Nat → Nat) : Nat → Nat
  | 0 => 0
  | k + 1 => off len k + len k

theorem off_mono (len : Nat → Nat) {a b : Nat} (h : a ≤ b) : off len a ≤ off len b := by
  induction b with
  | zero => have : a = 0 := by omega
            subst this; exact Nat.le_refl _
  | succ b ih =>
    rcases Nat.lt_or_ge b a with h' | h'
    · have : a = b + 1 := by omega
      subst this; exact Nat.le_refl _
    · have := ih h'
      simp only [off]; omega

/-- block `m` of `k` blocks lies inside the total -/
theorem block_inside (len : Nat → Nat) (k m : Nat) (h : m < k) :
    off len m + len m ≤ off len k := by
  have := off_mono len (show m + 1 ≤ k by omega)
  simpa [off] using this

/-- different blocks do not overlap -/
theorem blocks_disjoint (len : Nat → Nat) (a b : Nat) (h : a < b) :
    off len a + len a ≤ off len b := block_inside len b a h

/-- every position below the total lies in a block -/
theorem block_covers (len : Nat → Nat) (k j : Nat) (h : j < off len k) :
    ∃ m, m < k ∧ off len m ≤ j ∧ j < off len m + len m := by
  induction k with
  | zero => simp [off] at h
  | succ k ih =>
    simp only [off] at h
    rcases Nat.lt_or_ge j (off len k) with h' | h'
    · obtain ⟨m, hm, h1, h2⟩ := ih h'
      exact ⟨m, by omega, h1, h2⟩
    · exact ⟨k, by omega, h', h⟩

/-- a list that increases from one entry to the next is strictly increasing -/
theorem step_mono (b : Nat → Nat) (k : Nat) (step : ∀ i, i < k → b i < b (i + 1)) :
    ∀ i j, i < j → j ≤ k → b i < b j := by
  intro i j hij hj
  induction j with
  | zero => omega
  | succ j ih =>
    have s := step j (by omega)
    rcases Nat.lt_or_ge i j with h | h
    · have := ih h (by omega); omega
    · have : i = j := by omega
      subst this; exact s

/-- boundaries 0 = b 0 < b 1 < ... < b k = n split [0,n): every position lies in a range -/
theorem ranges_cover (b : Nat → Nat) (k n : Nat) (h0 : b 0 = 0) (hk : b k = n)
    (j : Nat) (hj : j < n) : ∃ i, i < k ∧ b i ≤ j ∧ j < b (i + 1) := by
  subst hk
  induction k with
  | zero => omega
  | succ k ih =>
    rcases Nat.lt_or_ge j (b k) with h | h
    · obtain ⟨i, hi, h1, h2⟩ := ih h
      exact ⟨i, by omega, h1, h2⟩
    · exact ⟨k, by omega, h, hj⟩

/-- ... and in only one of them -/
theorem ranges_unique (b : Nat → Nat) (k : Nat) (step : ∀ i, i < k → b i < b (i + 1))
    (j i i' : Nat) (hi : i < k) (hi' : i' < k) (h1 : b i ≤ j) (h2 : j < b (i + 1))
    (h1' : b i' ≤ j) (h2' : j < b (i' + 1)) : i = i' := by
  rcases Nat.lt_trichotomy i i' with h | h | h
  · rcases Nat.lt_or_ge (i + 1) i' with g | g
    · have := step_mono b k step (i + 1) i' g (by omega); omega
    · have : i' = i + 1 := by omega
      subst this; omega
  · exact h
  · rcases Nat.lt_or_ge (i' + 1) i with g | g
    · have := step_mono b k step (i' + 1) i g (by omega); omega
    · have : i = i' + 1 := by omega
      subst this; omega

/-- at least k entries are needed, so there are at most n non-empty ranges -/
theorem ranges_bound (b : Nat → Nat) (k : Nat) (step : ∀ i, i < k → b i < b (i + 1)) :
    ∀ i, i ≤ k → b 0 + i ≤ b i := by
  intro i hi
  induction i with
  | zero => omega
  | succ i ih => have := ih (by omega); have := step i (by omega); omega

/-- neighbouring entries of a non-decreasing list: global order -/
theorem step_le (b : Nat → Nat) (k : Nat) (step : ∀ i, i < k → b i ≤ b (i + 1)) :
    ∀ i j, i ≤ j → j ≤ k → b i ≤ b j := by
  intro i j hij hj
  induction j with
  | zero => have : i = 0 := by omega
            subst this; exact Nat.le_refl _
  | succ j ih =>
    rcases Nat.lt_or_ge j i with h | h
    · have : i = j + 1 := by omega
      subst this; exact Nat.le_refl _
    · have := ih h (by omega); have := step j (by omega); omega

/-- the positions i + j*nr of a product grid are exactly [0, nr*na) -/
theorem product_covers (nr na p : Nat) (h : p < nr * na) :
    ∃ i j, i < nr ∧ j < na ∧ p = i + j * nr := by
  have hr : 0 < nr := by
    rcases Nat.eq_zero_or_pos nr with h0 | h0
    · subst h0; simp at h
    · exact h0
  refine ⟨p % nr, p / nr, Nat.mod_lt _ hr, ?_, ?_⟩
  · exact (Nat.div_lt_iff_lt_mul hr).2 (by rw [Nat.mul_comm]; exact h)
  · have := Nat.mod_add_div p nr
    rw [Nat.mul_comm] at this; exact this.symm

theorem product_inside (nr na i j : Nat) (hi : i < nr) (hj : j < na) : i + j * nr < nr * na := by
  have h1 : (j + 1) * nr ≤ na * nr := Nat.mul_le_mul_right nr hj
  have h2 : (j + 1) * nr = j * nr + nr := Nat.succ_mul j nr
  have h3 : na * nr = nr * na := Nat.mul_comm na nr
  omega

theorem product_unique (nr i j i' j' : Nat) (hi : i < nr) (hi' : i' < nr)
    (h : i + j * nr = i' + j' * nr) : i = i' ∧ j = j' := by
  have hr : 0 < nr := by omega
  have e1 : (i + j * nr) / nr = j := by rw [Nat.add_mul_div_right _ _ hr, Nat.div_eq_of_lt hi]; omega
  have e2 : (i' + j' * nr) / nr = j' := by rw [Nat.add_mul_div_right _ _ hr, Nat.div_eq_of_lt hi']; omega
  have : j = j' := by rw [← e1, ← e2, h]
  subst this; omega
