------------------------------ MODULE TraceLib ------------------------------
(* What every trace specification shares: the recorded events, counters and *)
(* reports. Registers: 1 coverage, 2 mismatches.                            *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
Counters == TLCSet(1, [none |-> 0]) /\ TLCSet(2, 0)
Cover(x) == LET f == TLCGet(1) IN TLCSet(1, IF x \in DOMAIN f THEN [f EXCEPT ![x] = @ + 1] ELSE f @@ (x :> 1))
Mismatch(l, why, info) == PrintT("MISMATCH " \o ToJson([event |-> l, why |-> why, info |-> info])) /\ TLCSet(2, TLCGet(2) + 1)
Summary == /\ PrintT("COVER " \o ToJson(TLCGet(1)))
           /\ PrintT("VALIDATED " \o ToJson([events |-> Len(Trace), mismatches |-> TLCGet(2), skipped |-> 0]))
=============================================================================
