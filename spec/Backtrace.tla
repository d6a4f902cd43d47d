----------------------------- MODULE Backtrace -----------------------------
(* What the host can learn about addresses of a program: the symbol an      *)
(* address belongs to, and the return addresses a stack seems to hold.      *)
(* A symbol is [n, d, a, z]: its name, the name as shown, address and size. *)
EXTENDS Word
Depth == 64
Below(s, at) == ~ULt(at, OfInt(s.a))
Holds(s, at) == Below(s, at) /\ ULt(Sub(at, OfInt(s.a)), OfInt(s.z))
\* the symbols an address may be attributed to: one that holds it, else a nearest one below it
Owners(S, at) ==
  LET h == {s \in S : Holds(s, at)}  b == {s \in S : Below(s, at)}
  IN IF h # {} THEN h ELSE {s \in b : \A t \in b : t.a <= s.a}
\* a text [name, has, o] (name, whether an offset is shown, the offset) describes at
Shows(S, at, off, x) ==
  IF Owners(S, at) = {} THEN x.name = "" /\ ~x.has
  ELSE \E s \in Owners(S, at) : LET d == Sub(at, OfInt(s.a)) IN
       /\ x.name = s.d
       /\ IF off /\ d # Zero THEN x.has /\ x.o = d ELSE ~x.has
\* the return addresses: ra, then the words from the stack pointer up, until one is zero or cannot be read
RECURSIVE Chain(_, _, _, _, _)
Chain(size, sp, stk, v, n) ==
  IF v = Zero \/ n = Depth THEN <<>>
  ELSE <<v>> \o (IF n < Len(stk) THEN Chain(size, sp, stk, stk[n + 1], n + 1) ELSE <<>>)
=============================================================================
