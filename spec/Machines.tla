------------------------------ MODULE Machines ------------------------------
(* Several machines in one process are the product of machines alone: a step *)
(* of one leaves the others where they are, and where it leads depends only  *)
(* on the steps of that machine so far. alone[m][k] is the state in which    *)
(* machine m is after its k-th operation with nobody else around.            *)
EXTENDS Integers, Sequences
\* done[m]: operations machine m has completed; seen: the states found
Step(done, m) == [done EXCEPT ![m] = @ + 1]
StateProb(alone, done, m, d) == IF done[m] = 0 THEN "" ELSE LET a == alone[m][done[m]] IN
  IF d[1] # a[1] THEN "an operation ends otherwise than alone" ELSE IF d[2] # a[2] THEN "registers differ from alone" ELSE IF d[3] # a[3] THEN "memory differs from alone" ELSE IF d[4] # a[4] THEN "counters or layout differ from alone" ELSE ""
=============================================================================
