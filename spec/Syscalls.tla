------------------------------- MODULE Syscalls -------------------------------
(* Dispatch of guest system calls to host handlers: which handler runs, what  *)
(* it is given by type, and how its result reaches the guest.                 *)
EXTENDS Memory
\* the table: installed handlers by number, the unknown-call handler (0: none set), size of the table
Table(max) == [h |-> [n \in {} |-> 0], unk |-> 0, max |-> max]
Install(t, n, h) == IF n >= t.max \/ n < 0 THEN t ELSE [t EXCEPT !.h = [k \in DOMAIN t.h \cup {n} |-> IF k = n THEN h ELSE t.h[k]]]
\* who answers call number w (a word): a handler, the unknown-call handler, or nobody (an exception)
Answer(t, w) == IF IsSmall(w) /\ ToInt(w) < t.max /\ ToInt(w) \in DOMAIN t.h THEN [k |-> "h", id |-> t.h[ToInt(w)]]
                ELSE IF t.unk # 0 THEN [k |-> "u", id |-> t.unk] ELSE [k |-> "none", id |-> 0]

(* ---- arguments by type ---- *)
Low(w, n) == SubSeq(w, 1, n)
Regs(ty) == IF ty = "view" THEN 2 ELSE 1
IsF(ty) == ty \in {"f4", "f8"}
\* index of the first register of argument k of its class
RECURSIVE Before(_, _, _)
Before(tys, k, f) == IF k = 0 THEN 0 ELSE Before(tys, k - 1, f) + (IF IsF(tys[k]) = f THEN Regs(tys[k]) ELSE 0)
A0 == 5 \* index of the first argument register in a 1-based register list
FA0 == 1
\* delivered values: the set of possible byte strings; {} if it must be refused; Refusable: may also be refused
SizeOf(ty) == CASE ty = "i1" -> 1 [] ty = "i2" -> 2 [] ty = "i4" -> 4 [] ty = "i8" -> 8 [] ty = "f4" -> 4 [] ty = "f8" -> 8
                [] ty = "m3" -> 3 [] ty = "m4" -> 4 [] ty = "m24" -> 24
Deliver(ar, mem, r, f, tys, k) ==
  LET ty == tys[k]
      p == Before(tys, k - 1, IsF(ty))
      w == IF IsF(ty) THEN f[FA0 + p] ELSE r[A0 + p]
  IN IF IsF(ty) \/ ty \in {"i1", "i2", "i4", "i8"} THEN [ok |-> Yes, v |-> Low(w, SizeOf(ty))]
     ELSE IF ty = "view" THEN LET n == r[A0 + p + 1] o == RangeOutcome(ar, ar.ro, w, n) IN
            [ok |-> o, v |-> IF o = Yes THEN Peek(mem, ToInt(w), ToInt(n)) ELSE <<>>]
     ELSE IF ty = "str" THEN
            IF ~CanRead(ar, w) THEN [ok |-> No, v |-> <<>>]
            ELSE LET room == ar.size - ToInt(w)  len == StrN(mem, ToInt(w), room)
                 IN [ok |-> IF len = room THEN {"ok", "prot"} ELSE Yes, v |-> Peek(mem, ToInt(w), len)]
     ELSE LET o == RangeOutcome(ar, ar.ro, w, OfInt(SizeOf(ty))) IN
            [ok |-> o, v |-> IF o = Yes THEN Peek(mem, ToInt(w), SizeOf(ty)) ELSE <<>>]

(* ---- results by type: what the result registers hold afterwards ---- *)
SextN(w, n) == LET s == IF w[n] >= 128 THEN 255 ELSE 0 IN [i \in 1..8 |-> IF i <= n THEN w[i] ELSE s]
ResultA0(old, res, rv) ==
  CASE res = "i1" -> SextN(rv, 1) [] res = "i2" -> SextN(rv, 2) [] res = "i4" -> SextN(rv, 4) [] res = "i8" -> rv
    [] res = "bool" -> OfInt(rv[1] % 2) [] OTHER -> old
===============================================================================
