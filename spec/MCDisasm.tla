----------------------------- MODULE MCDisasm -----------------------------
(* Consistency of the operand table with the encoding table: for words at   *)
(* the corners of every encoding, every instruction has a layout, no two    *)
(* operands share a bit, the operands stay within the bits that vary, and   *)
(* they and the mnemonic determine the word: two words of one instruction   *)
(* that differ in any operand bit have different texts (all no-ops: nop).      *)
EXTENDS Disasm, TLC, FiniteSets
VARIABLE i
Bits(f) == IF f[1] = "b21" THEN (0..4) \cup (10..25) ELSE IF f[1] = "b26" THEN 0..25 ELSE f[2]..(f[2] + f[3] - 1)
E == IsaTable[i]
L == LayoutOf(E[3])
Lows == {0, 1023, 341, 682, 1, 512, 31, 992}
His == {E[1], E[2], (E[1] + E[2]) \div 2, E[1] + (E[2] - E[1]) \div 3}
Ws == His \X Lows
Flip(w, b) == IF b < 10 THEN <<w[1], IF (w[2] \div Pow2(b)) % 2 = 1 THEN w[2] - Pow2(b) ELSE w[2] + Pow2(b)>>
              ELSE <<IF (w[1] \div Pow2(b - 10)) % 2 = 1 THEN w[1] - Pow2(b - 10) ELSE w[1] + Pow2(b - 10), w[2]>>
Init == i \in 1..8   \* eight chains, for eight workers
Next == i + 8 <= Len(IsaTable) /\ i' = i + 8
Complete == E[3] \in Placed
Disjoint == \A a, b \in DOMAIN L : a # b => Bits(L[a]) \cap Bits(L[b]) = {}
\* a bit of an operand changes the text; a bit of the prefix outside every operand changes the instruction
Determined == \A w \in Ws : \A b \in 0..31 :
  LET in == \E a \in DOMAIN L : b \in Bits(L[a])  w2 == Flip(w, b)
  IN IF in THEN IsaName(w2[1]) # E[3] \/ \A t \in Texts(E[3], w2) \cap Texts(E[3], w) : t[1] = "nop"
     ELSE (b >= 10 => IsaName(w2[1]) # E[3]) /\ (b < 10 => Operands(E[3], w2) = Operands(E[3], w))
Named == \A w \in Ws : \A t \in Texts(E[3], w) : Len(t[2]) <= 4
=============================================================================
