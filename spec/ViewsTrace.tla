------------------------------ MODULE ViewsTrace ------------------------------
(* Recorded host calls on guest objects of arbitrary content.               *)
EXTENDS TraceLib, Views
VARIABLE l
Init == l = 1 /\ Counters
Reads == {"to_string", "to_view", "to_vector", "as_array", "as_array const", "at"}
Judged(e) == e.call \in Reads /\ e.k \in {"str", "rstr", "vi", "rvi"}
Want(e) == IF e.k \in {"str", "rstr"} THEN StringView(e.k, e.raw, e.p, e.n, e.max) ELSE VectorView(e.k, e.call, e.p, e.n, e.cap, e.max, e.idx, e.there)
Prob(e) ==
  IF ~e.same THEN "read-only memory changed"
  ELSE IF e.used + e.free # HeapSize THEN "the heap's accounts do not add up"
  ELSE IF ~Judged(e) THEN ""
  ELSE LET w == Want(e) IN
       IF e.ok # w.ok THEN (IF e.ok THEN "an object reaching outside was viewed" ELSE "a valid object was refused")
       ELSE IF ~w.ok THEN ""
       ELSE IF e.res[1] # w.len THEN "size differs"
       ELSE IF w.bytes # <<-1>> /\ SubSeq(e.res, 2, Len(e.res)) # w.bytes THEN "contents differ" ELSE ""
Next == /\ l <= Len(Trace)
        /\ LET e == Trace[l]  p == Prob(e) IN
           /\ IF p = "" THEN TRUE ELSE Mismatch(l, p, [what |-> e.what, ok |-> e.ok, res |-> e.res, want |-> IF Judged(e) THEN ToString(Want(e)) ELSE ""])
           /\ Cover(e.k \o " " \o e.call \o (IF e.ok THEN " ok" ELSE " refused"))
        /\ l' = l + 1 /\ IF l = Len(Trace) THEN Summary ELSE TRUE
=============================================================================
