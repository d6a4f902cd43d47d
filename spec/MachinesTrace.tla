---------------------------- MODULE MachinesTrace ----------------------------
(* Recorded operations of several machines, and the states of all of them.   *)
EXTENDS TraceLib, Machines
VARIABLES l, alone, done
vars == <<l, alone, done>>
Init == l = 1 /\ alone = <<>> /\ done = <<>> /\ Counters
Problem(e, dn) ==
  LET bad == {i \in DOMAIN e.live : StateProb(alone, dn, e.live[i].m, e.live[i].d) # ""} IN
  IF dn[e.m] > Len(alone[e.m]) THEN [p |-> "harness: more operations than alone", m |-> e.m]
  ELSE IF bad = {} THEN [p |-> "", m |-> 0] ELSE LET i == CHOOSE i \in bad : TRUE IN [p |-> StateProb(alone, dn, e.live[i].m, e.live[i].d), m |-> e.live[i].m]
Next == /\ l <= Len(Trace)
        /\ LET e == Trace[l] IN
           IF e.op = "alone" THEN alone' = e.d /\ done' = [m \in DOMAIN e.d |-> 0]
           ELSE LET dn == Step(done, e.m)  p == Problem(e, dn) IN
                /\ IF p.p = "" THEN TRUE ELSE Mismatch(l, p.p, [op |-> e.op, n |-> e.n, by |-> e.m, of |-> p.m, done |-> dn, live |-> e.live, alone |-> alone[p.m][dn[p.m]]])
                /\ Cover(e.op) /\ (IF Len(e.live) > 1 THEN Cover("others watched") ELSE Cover("concurrent"))
                /\ alone' = alone /\ done' = dn
        /\ l' = l + 1 /\ IF l = Len(Trace) THEN Summary ELSE TRUE
=============================================================================
