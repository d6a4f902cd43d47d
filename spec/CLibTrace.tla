------------------------------ MODULE CLibTrace ------------------------------
(* Recorded calls of the accelerated routines (patched functions called by  *)
(* guests and by the host, system calls) against CLib.tla.                  *)
EXTENDS TraceLib, CLib
VARIABLE l
Init == l = 1 /\ Counters
Mem(e) == [size |-> e.size, ro |-> e.ro, rw |-> e.rw, fill |-> e.fill, win |-> e.win]
\* bytes after the call: the recorded runs of changed bytes, otherwise as before
Changed(e, a) == \E k \in 1..Len(e.post) : In(e.post[k], a)
After(e, m, a) == LET k == {i \in 1..Len(e.post) : In(e.post[i], a)} IN IF k = {} THEN Byte(m, a) ELSE LET i == CHOOSE i \in k : TRUE IN e.post[i].b[a - e.post[i].at + 1]
Stray(e, lo, n) == \E k \in 1..Len(e.post) : e.post[k].at < lo \/ e.post[k].at + Len(e.post[k].b) > lo + n
Problem(e) ==
  LET m == Mem(e)  c == Call(m, e.op, e.a0, e.a1, e.a2)  w == c.write
      \* memcpy between overlapping objects leaves the destination undefined
      free == e.op = "memcpy" /\ Overlap(w)
  IN IF e.out \notin {"ok", "prot"} THEN "outcome"
     ELSE IF e.out = "ok" /\ ~c.may THEN "succeeds although it needs bytes outside guest memory"
     ELSE IF e.out = "prot" /\ c.must THEN "faults although every byte needed is in guest memory"
     ELSE IF e.out = "prot" THEN (IF e.post # <<>> THEN "faults but changes memory" ELSE "")
     ELSE IF ~e.kept THEN "a register the caller keeps has changed"
     ELSE IF ~e.cont THEN "the guest does not continue at the caller"
     ELSE IF c.kind = "word" /\ e.ret # c.ret THEN "result"
     ELSE IF c.kind = "int" /\ IntSign(e.ret) # c.sign THEN "sign of the comparison"
     ELSE IF Stray(e, w.at, w.n) THEN "memory changed outside the destination"
     ELSE IF ~free /\ \E i \in 0..(w.n - 1) : After(e, m, w.at + i) # Stored(m, w, i) THEN "contents of the destination"
     ELSE ""
Kind(e) == LET c == Call(Mem(e), e.op, e.a0, e.a1, e.a2) IN e.op \o " " \o e.via \o (IF e.out # "ok" THEN " fault" ELSE IF c.kind = "int" THEN (IF c.sign = 0 THEN " equal" ELSE " differ") ELSE IF Overlap(c.write) THEN " overlap" ELSE " ok")
Next == /\ l <= Len(Trace)
        /\ LET e == Trace[l]  p == Problem(e) IN
           /\ IF p = "" THEN TRUE ELSE Mismatch(l, p, [op |-> e.op, via |-> e.via, a0 |-> e.a0, a1 |-> e.a1, a2 |-> e.a2, out |-> e.out, ret |-> e.ret, win |-> e.win, fill |-> e.fill, arena |-> <<e.ro, e.rw, e.size>>, post |-> e.post,
                                                      expected |-> [Call(Mem(e), e.op, e.a0, e.a1, e.a2) EXCEPT !.kind = @]])
           /\ Cover(Kind(e))
        /\ l' = l + 1 /\ IF l = Len(Trace) THEN Summary ELSE TRUE
=============================================================================
