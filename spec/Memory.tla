------------------------------- MODULE Memory -------------------------------
(* Guest memory as the host and the guest may use it: one arena of bytes    *)
(* [0, size) of which [ro, size) is readable and [rw, size) is writable,    *)
(* followed by a margin that scalar accesses starting inside may reach.     *)
(* Addresses and lengths are 64-bit words (Word.tla).                       *)
EXTENDS Word
Margin == 64
\* a = [size, ro, rw]: the arena
Starts(a, lo, addr) == IsSmall(addr) /\ lo <= ToInt(addr) /\ ToInt(addr) < a.size
\* scalar accesses: judged by where they start
CanRead(a, addr) == Starts(a, a.ro, addr)
CanWrite(a, addr) == Starts(a, a.rw, addr)
\* range accesses: the whole range must be inside
Within(a, lo, addr, n) == /\ IsSmall(addr) /\ IsSmall(n)
                          /\ lo <= ToInt(addr) /\ ToInt(addr) <= a.size /\ ToInt(n) <= a.size - ToInt(addr)
Yes == {"ok"}
No == {"prot"}
\* which outcomes a range access may have; an empty range outside touches nothing either way
RangeOutcome(a, lo, addr, n) == IF Within(a, lo, addr, n) THEN Yes ELSE IF n = Zero THEN {"ok", "prot"} ELSE No
Peek(mem, at, n) == [i \in 1..n |-> mem[at + i]]
Poke(mem, at, data) == [i \in 1..Len(mem) |-> IF i > at /\ i <= at + Len(data) THEN data[i - at] ELSE mem[i]]
Fill(mem, at, n, v) == [i \in 1..Len(mem) |-> IF i > at /\ i <= at + n THEN v ELSE mem[i]]
\* -1, 0, 1 by the first differing byte
RECURSIVE Compare(_, _, _, _)
Compare(mem, p, q, n) == IF n = 0 THEN 0
  ELSE IF mem[p + 1] < mem[q + 1] THEN -1 ELSE IF mem[p + 1] > mem[q + 1] THEN 1 ELSE Compare(mem, p + 1, q + 1, n - 1)
\* number of bytes before the terminator, at most n
RECURSIVE StrN(_, _, _)
StrN(mem, p, n) == IF n = 0 \/ mem[p + 1] = 0 THEN 0 ELSE 1 + StrN(mem, p + 1, n - 1)
Min(x, y) == IF x < y THEN x ELSE y
\* how many bytes of a string starting at addr may be examined: the maximum asked for or the rest of the arena
StrRoom(a, addr, max) == LET rest == a.size - ToInt(addr) IN IF IsSmall(max) THEN Min(ToInt(max), rest) ELSE rest
=============================================================================
