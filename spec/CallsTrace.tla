------------------------------ MODULE CallsTrace ------------------------------
(* Recorded bounded and nested calls.                                       *)
EXTENDS TraceLib, Calls
VARIABLE l
Init == l = 1 /\ Counters
Budget(e) == IF e.style \in {"vmcall", "run", "sliced"} THEN Inf ELSE e.B
Seen(e) == [i \in DOMAIN e.obs |-> e.obs[i].x]
Want(e) == Call([f |-> e.f, n |-> e.n, B |-> Budget(e)], e.script, Seen(e))
LogOk(e, w) == Len(e.obs) = Len(w.log) /\ \A i \in DOMAIN w.log : w.log[i] = e.obs[i].out \/ (w.log[i] = "open" /\ e.obs[i].out = "ok")
Prob(e) ==
  LET w == Want(e) IN
  IF \E i \in DOMAIN e.obs : ~e.obs[i].kept THEN "a nested call changed the interrupted program's state"
  ELSE IF e.out # w.out THEN (IF w.out = "timeout" THEN "a timeout was reported as something else" ELSE IF e.out = "timeout" THEN "a timeout was reported for a call that ended" ELSE "the call ended otherwise")
  ELSE IF w.out = "ok" /\ e.x # w.val THEN "the result differs"
  ELSE IF ~LogOk(e, w) THEN "a nested call ended otherwise" ELSE ""
Next == /\ l <= Len(Trace)
        /\ LET e == Trace[l]  p == Prob(e) IN
           /\ IF p = "" THEN TRUE ELSE Mismatch(l, p, [style |-> e.style, f |-> e.f, n |-> e.n, B |-> e.B, script |-> e.script, obs |-> e.obs, out |-> e.out, x |-> e.x, want |-> [out |-> Want(e).out, val |-> Want(e).val, log |-> Want(e).log]])
           /\ Cover(e.style \o " " \o e.f \o " " \o e.out) /\ Cover("nested calls " \o ToString(Len(e.obs)))
           /\ \A i \in DOMAIN e.obs : Cover("nested " \o e.obs[i].out)
        /\ l' = l + 1 /\ IF l = Len(Trace) THEN Summary ELSE TRUE
=============================================================================
