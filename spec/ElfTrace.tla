------------------------------- MODULE ElfTrace -------------------------------
(* Recorded loads (and initial stacks) against Elf.tla.                      *)
EXTENDS TraceLib, Elf
VARIABLE l
Init == l = 1 /\ Counters
Info(e) == [what |-> e.what, ok |-> e.ok, exc |-> e.exc, len |-> Len(e.file), max |-> e.max, stack |-> e.stack, brk |-> e.brk]
Judge(e) ==
  LET f == e.file  p == IF f = <<>> THEN "" ELSE Problem(f, e) IN \* no file at all: a machine without a program
  /\ IF p = "" THEN TRUE ELSE Mismatch(l, p, Info(e))
  /\ Cover(IF e.ok THEN (IF MustAccept(f, e) THEN "accepted well formed" ELSE "accepted other") ELSE IF MustReject(f, e) THEN "refused inconsistent" ELSE "refused other")
  /\ IF "su" \in DOMAIN e
     THEN LET q == StackProblem(f, e) IN
          /\ IF q = "" THEN TRUE ELSE Mismatch(l, q, [args |-> Len(e.su.args), env |-> Len(e.su.env), sp |-> e.su.sp, top |-> e.su.top, stack |-> e.stack, out |-> e.su.out])
          /\ Cover(IF e.su.out = "ok" THEN "stack built" ELSE "stack refused")
     ELSE TRUE
\* refusing a file gives back what loading it took
Leak(e) == /\ Cover("refused repeatedly")
           /\ IF e.refused < 8 \/ 2 * e.grown < e.refused * e.mb THEN TRUE ELSE Mismatch(l, "refused files keep their memory", e)
Next == /\ l <= Len(Trace) /\ (IF Trace[l].op = "leak" THEN Leak(Trace[l]) ELSE Judge(Trace[l])) /\ l' = l + 1
        /\ IF l = Len(Trace) THEN Summary ELSE TRUE
=============================================================================
