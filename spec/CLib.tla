-------------------------------- MODULE CLib --------------------------------
(* The C library's memory and string functions over guest memory, as the C  *)
(* standard defines them: result, memory afterwards, and which bytes a call *)
(* has to look at before its result is decided.                             *)
(* A memory m = [size, ro, rw, fill, win]: bytes [ro, size) are readable,   *)
(* [rw, size) writable; win is a sequence of [at, b] with the contents b    *)
(* from address at on; every other byte is fill.                            *)
EXTENDS Word
Cap == 1073741824
Num(w) == IF IsSmall(w) /\ ToInt(w) < Cap THEN ToInt(w) ELSE Cap  \* addresses and lengths, saturated
In(w, a) == a >= w.at /\ a < w.at + Len(w.b)
Byte(m, a) == LET k == {i \in 1..Len(m.win) : In(m.win[i], a)} IN IF k = {} THEN m.fill ELSE LET i == CHOOSE i \in k : TRUE IN m.win[i].b[a - m.win[i].at + 1]
\* how many bytes from a on can be accessed
Room(m, lo, a) == IF lo <= a /\ a < m.size THEN m.size - a ELSE 0
CanAll(m, lo, a, n) == n <= Room(m, lo, a)
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
Low(x, y) == IF x < y THEN x ELSE y
\* offsets below n at which windows lie, seen from a
Offs(m, a, n) == UNION {{i \in (m.win[k].at - a)..(m.win[k].at + Len(m.win[k].b) - 1 - a) : i >= 0 /\ i < n} : k \in 1..Len(m.win)}
\* first offset below n at which the byte is v, or n
FirstOf(m, a, n, v) == LET c == IF m.fill = v THEN 0..(n - 1) ELSE Offs(m, a, n)
                           h == {i \in c : Byte(m, a + i) = v} IN IF h = {} THEN n ELSE MinOf(h)
\* first offset below n at which the bytes differ (or, for strings, both end), or n
FirstDiff(m, a, b, n, str) ==
  LET c == Offs(m, a, n) \cup Offs(m, b, n) \cup (IF str /\ m.fill = 0 THEN 0..(n - 1) ELSE {})
      h == {i \in c : LET x == Byte(m, a + i) y == Byte(m, b + i) IN x # y \/ (str /\ x = 0)} IN IF h = {} THEN n ELSE MinOf(h)
Sign(x) == IF x < 0 THEN -1 ELSE IF x > 0 THEN 1 ELSE 0
(* What a call may do. must: it has to succeed; may: it is allowed to. A    *)
(* call that may not succeed has to fault. sign: the result is an int of    *)
(* which only the sign is fixed; otherwise ret is the result register.      *)
(* write = [at, n, src]: the bytes stored, src = -1: the byte v.            *)
NoWrite == [at |-> 0, n |-> 0, src |-> 0, v |-> 0]
ValR(ret, must, may, wr) == [kind |-> "word", ret |-> ret, must |-> must, may |-> may, write |-> wr, sign |-> 0]
CmpR(s, must, may) == [kind |-> "int", ret |-> Zero, must |-> must, may |-> may, write |-> NoWrite, sign |-> s]
Call(m, op, a0, a1, a2) ==
  LET p == Num(a0)  q == Num(a1)  n == Num(a2)
      rp == Room(m, m.ro, p)  rq == Room(m, m.ro, q)
  IN CASE op \in {"memcpy", "memmove"} -> LET ok == n = 0 \/ (CanAll(m, m.rw, p, n) /\ CanAll(m, m.ro, q, n)) IN
              ValR(a0, ok, ok, IF n = 0 \/ ~ok THEN NoWrite ELSE [at |-> p, n |-> n, src |-> q, v |-> 0])
       [] op = "memset" -> LET ok == n = 0 \/ CanAll(m, m.rw, p, n) IN ValR(a0, ok, ok, IF n = 0 \/ ~ok THEN NoWrite ELSE [at |-> p, n |-> n, src |-> -1, v |-> a1[1]])
       [] op = "memcmp" -> LET r == Low(n, Low(rp, rq))  k == FirstDiff(m, p, q, r, FALSE) IN
              CmpR(IF k = r THEN 0 ELSE Sign(Byte(m, p + k) - Byte(m, q + k)), n <= Low(rp, rq), k < r \/ r = n)
       [] op = "memchr" -> LET r == Low(n, rp)  k == FirstOf(m, p, r, a1[1])  ok == k < r \/ r = n IN ValR(IF k < r THEN AddInt(a0, k) ELSE Zero, ok, ok, NoWrite)
       [] op = "strlen" -> LET k == FirstOf(m, p, rp, 0) IN ValR(OfInt(k), k < rp, k < rp, NoWrite)
       [] op = "strnlen" -> LET r == Low(q, rp)  k == FirstOf(m, p, r, 0)  ok == k < r \/ r = q IN ValR(OfInt(k), ok, ok, NoWrite)
       [] op \in {"strcmp", "strncmp"} -> LET lim == IF op = "strcmp" THEN Cap ELSE n  r == Low(lim, Low(rp, rq))  k == FirstDiff(m, p, q, r, TRUE)  ok == k < r \/ r = lim IN
              CmpR(IF k < r THEN Sign(Byte(m, p + k) - Byte(m, q + k)) ELSE 0, ok, ok)
Stored(m, wr, i) == IF wr.src = -1 THEN wr.v ELSE Byte(m, wr.src + i)
Overlap(wr) == wr.src # -1 /\ wr.src < wr.at + wr.n /\ wr.at < wr.src + wr.n
\* an int in a register is sign-extended
IntSign(w) == IF w[5] # w[6] \/ w[6] # w[7] \/ w[7] # w[8] \/ w[5] # (IF w[4] >= 128 THEN 255 ELSE 0) THEN 9 ELSE IF w[4] >= 128 THEN -1 ELSE IF w = Zero THEN 0 ELSE 1
=============================================================================
