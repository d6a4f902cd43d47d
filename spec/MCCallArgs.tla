----------------------------- MODULE MCCallArgs -----------------------------
(* Marshalling argument by argument, as an implementation does it -- next   *)
(* free integer register, floating-point register, stack word, and blocks   *)
(* pushed below the stack pointer -- against the closed rules of CallArgs.  *)
(* A call starts with up to nine arguments of either family already placed, *)
(* so that every register runs out at every point.                          *)
EXTENDS CallArgs, TLC
CONSTANTS Depth, Given
Top == 2048
VARIABLES args, ir, fr, ni, nf, over, sp, blocks, given
vars == <<args, ir, fr, ni, nf, over, sp, blocks, given>>
Val(i) == <<i, 1, 2, 3, 4, 5, 6, 7>>
IntArg(i) == [k |-> "int", w |-> 8, sg |-> FALSE, b |-> Val(i), ptr |-> Zero]
FltArg(i) == [k |-> "float", w |-> 8, sg |-> FALSE, b |-> Val(i), ptr |-> Zero]
MemArg(i, n) == [k |-> "mem", w |-> 0, sg |-> FALSE, b |-> [j \in 1..n |-> (i + j) % 256], ptr |-> Zero]
Kinds(i) == {IntArg(i), FltArg(i), [IntArg(i) EXCEPT !.w = 4, !.b = <<i, 0, 0, 200>>], [FltArg(i) EXCEPT !.w = 4, !.b = <<i, 2, 3, 200>>]} \cup {MemArg(i, n) : n \in {1, 16, 17, 40}}
Full(b) == b \o [j \in 1..(8 - Len(b)) |-> 0]
PutInt(v) == IF ni < 8 THEN ir' = [ir EXCEPT ![ni + 1] = v] /\ ni' = ni + 1 /\ UNCHANGED over ELSE over' = Append(over, v) /\ UNCHANGED <<ir, ni>>
Place(a) ==
  /\ args' = Append(args, a)
  /\ CASE a.k = "int" -> PutInt(Widen(a.b, a.w, a.sg)) /\ UNCHANGED <<fr, nf, sp, blocks>>
       [] a.k = "float" -> (IF nf < 8 THEN fr' = [fr EXCEPT ![nf + 1] = Full(a.b)] /\ nf' = nf + 1 /\ UNCHANGED <<ir, ni, over>> ELSE PutInt(Full(a.b)) /\ UNCHANGED <<fr, nf>>) /\ UNCHANGED <<sp, blocks>>
       [] OTHER -> LET at == sp - 16 * ((Len(a.b) + 15) \div 16) IN sp' = at /\ blocks' = Append(blocks, <<at, a.b>>) /\ PutInt(OfInt(at)) /\ UNCHANGED <<fr, nf>>
Init == /\ args = <<>> /\ ir = [i \in 1..8 |-> Ones] /\ fr = [i \in 1..8 |-> Ones] /\ ni = 0 /\ nf = 0 /\ over = <<>> /\ sp = Top /\ blocks = <<>>
        /\ given \in {<<x, y>> : x \in Given, y \in Given}
\* first the given arguments, the two families interleaved, then any
Next == /\ Len(args) < given[1] + given[2] + Depth
        /\ IF Len(args) < given[1] + given[2]
           THEN LET n == Len(args)  f == FBefore(Append(args, IntArg(0)), n + 1)  i == n - f IN
                Place(IF (n % 2 = 0 /\ i < given[1]) \/ f >= given[2] THEN IntArg(n) ELSE FltArg(n))
           ELSE \E a \in Kinds(Len(args)) : Place(a)
        /\ UNCHANGED given
\* the entry state if the call were made now
StackAt == sp - 16 * ((8 * Len(over) + 15) \div 16)
ByteOf(a) == IF a < StackAt + 8 * Len(over) THEN over[((a - StackAt) \div 8) + 1][((a - StackAt) % 8) + 1]
             ELSE LET Bl == {i \in DOMAIN blocks : blocks[i][1] <= a /\ a < blocks[i][1] + Len(blocks[i][2])} IN
                  IF Bl = {} THEN 0 ELSE LET k == CHOOSE k \in Bl : TRUE IN blocks[k][2][a - blocks[k][1] + 1]
Entry == [args |-> args, ir |-> ir, fr |-> fr, sp |-> OfInt(StackAt), sp0 |-> OfInt(Top), stack |-> [j \in 1..(Top - StackAt) |-> ByteOf(StackAt + j - 1)]]
Delivered == EntryProb(Entry) = ""
SlotsDistinct == \A i, j \in DOMAIN args : i < j => Slot(args, i) # Slot(args, j)
Counted == /\ StackSlots(args) = Len(over)
           /\ ni = Cardinality({i \in DOMAIN args : Slot(args, i).r = "i"}) /\ nf = Cardinality({i \in DOMAIN args : Slot(args, i).r = "f"})
\* registers and stack words are used in order, from the first
InOrder == \A r \in {"i", "f", "s"} : LET I == {i \in DOMAIN args : Slot(args, i).r = r} IN {Slot(args, i).n : i \in I} = 0..(Cardinality(I) - 1) /\ \A i, j \in I : i < j => Slot(args, i).n < Slot(args, j).n
=============================================================================
