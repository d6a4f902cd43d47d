---------------------------- MODULE CallArgsTrace ----------------------------
(* Recorded host calls of guest functions.                                  *)
EXTENDS TraceLib, CallArgs
VARIABLE l
Init == l = 1 /\ Counters
Prob(e) ==
  IF e.op = "missing" THEN (IF e.out = "invalid" /\ ~e.entered THEN "" ELSE "a missing function was called")
  ELSE IF e.out # "ok" THEN "the call failed"
  ELSE IF ~e.entered THEN "the function was not called"
  ELSE IF ~e.right THEN "another function was called"
  ELSE IF e.ra # e.exit THEN "the return address is not the exit"
  ELSE IF e.elsewhere THEN "memory outside the call's stack space changed"
  ELSE LET p == EntryProb(e) IN
       IF p # "" THEN p ELSE IF e.ret # Result(e.rk, e.rw, e.rs, e.a0, e.fa0) THEN "the result differs" ELSE ""
Next == /\ l <= Len(Trace)
        /\ LET e == Trace[l]  p == Prob(e) IN
           /\ IF p = "" THEN TRUE ELSE Mismatch(l, p, IF e.op = "call" THEN [sig |-> e.sig, style |-> e.style, out |-> e.out, args |-> [i \in DOMAIN e.args |-> <<e.args[i].k, e.args[i].w>>], sp |-> e.sp, rk |-> e.rk, ret |-> e.ret] ELSE e)
           /\ IF e.op = "missing" THEN Cover("missing") ELSE Cover(e.style) /\ Cover("result " \o e.rk \o ToString(e.rw)) /\ Cover("stack arguments " \o ToString(StackSlots(e.args)))
        /\ l' = l + 1 /\ IF l = Len(Trace) THEN Summary ELSE TRUE
=============================================================================
