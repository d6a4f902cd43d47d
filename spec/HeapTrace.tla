------------------------------ MODULE HeapTrace ------------------------------
(* Recorded requests to the real heap, by guests (system calls and patched  *)
(* functions) and by the host, against Heap.tla.                            *)
EXTENDS TraceLib, Heap
VARIABLES l, st
Init == l = 1 /\ st = Start(0, <<>>, 1) /\ Counters
Obs(e) == [ok |-> e.ok, pos |-> e.pos, g |-> e.g, chunked |-> e.chunked, mem |-> e.mem, acc |-> e.acc]
IsLive(e) == e.at \in DOMAIN st.live
N(e) == IF e.op = "calloc" THEN Times(Cap(e.c), Cap(e.n)) ELSE Cap(e.n)
Prob(e) ==
  CASE e.op = "start" -> ""
    [] e.op \in {"malloc", "calloc"} -> MallocProblem(st, N(e), e.op = "calloc", Obs(e))
    [] e.op = "realloc" -> IF e.null THEN MallocProblem(st, N(e), FALSE, Obs(e)) ELSE IF IsLive(e) THEN ReallocProblem(st, e.at, N(e), Obs(e)) ELSE AlienProblem(st, Obs(e))
    [] e.op = "free" -> IF e.null /\ e.via # "host" THEN (IF ~e.ok THEN "freeing nothing is refused" ELSE AlienProblem(st, [Obs(e) EXCEPT !.ok = FALSE]))
                        ELSE IF IsLive(e) THEN FreeProblem(st, e.at, Obs(e)) ELSE AlienProblem(st, Obs(e))
    [] e.op = "meminfo" -> IF e.ok # ~e.null THEN "meminfo result" ELSE IF ~e.null /\ e.told # <<e.acc.free, e.acc.used, e.acc.chunks>> THEN "meminfo reports other numbers"
                           ELSE AlienProblem(st, [Obs(e) EXCEPT !.ok = FALSE])
After(e) ==
  CASE e.op = "start" -> Start(e.size, e.mem, e.maxc)
    [] e.op \in {"malloc", "calloc"} -> AfterAlloc(st, st.live, N(e), Obs(e), e.tag)
    [] e.op = "realloc" -> IF e.null THEN AfterAlloc(st, st.live, N(e), Obs(e), e.tag)
                           ELSE IF ~IsLive(e) THEN st
                           ELSE IF e.ok THEN AfterAlloc(st, Without(st.live, e.at), N(e), Obs(e), e.tag)
                           ELSE IF N(e) = 0 /\ e.acc.used = Used(Without(st.live, e.at)) THEN AfterFree(st, e.at, Obs(e))
                           ELSE [st EXCEPT !.fails = @ + 1]
    [] e.op = "free" -> IF IsLive(e) /\ e.ok THEN AfterFree(st, e.at, Obs(e)) ELSE st
    [] OTHER -> st
Dead == st.size = -1
Next == /\ l <= Len(Trace)
        /\ LET e == Trace[l]  p == IF Dead /\ e.op # "start" THEN "" ELSE Prob(e) IN
           /\ IF p = "" THEN TRUE ELSE Mismatch(l, p, [op |-> e.op, via |-> e.via, path |-> e.path, ok |-> e.ok, pos |-> e.pos, g |-> e.g, acc |-> e.acc, live |-> ToString(st.live), size |-> st.size])
           /\ Cover(e.op \o " " \o e.via \o (IF e.ok THEN " ok" ELSE IF e.chunked THEN " chunks" ELSE " refused"))
           \* after a problem the history up to the next start says nothing more
           /\ st' = IF e.op # "start" /\ (Dead \/ p # "") THEN [st EXCEPT !.size = -1] ELSE After(e)
        /\ l' = l + 1 /\ IF l = Len(Trace) THEN Summary ELSE TRUE
Ok == l > 1 /\ ~Dead => TypeOk(st)
=============================================================================
