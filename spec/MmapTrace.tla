------------------------------ MODULE MmapTrace ------------------------------
(* Recorded mapping requests of a real machine against Mmap.tla.            *)
EXTENDS TraceLib, Mmap
VARIABLES l, st
Init == l = 1 /\ st = [A |-> 0, S |-> 0, bump |-> 0, live |-> {}, sig |-> <<>>] /\ Counters
Ev == Trace[l]
Obs(e) == [ok |-> e.ok, addr |-> IF e.ok THEN Cap(e.res) ELSE 0, sig |-> e.sig]
Prob(e) ==
  LET a == Cap(e.a)  n == Cap(e.n)  o == Obs(e) IN
  CASE e.op = "start" -> IF \E p \in e.S..(e.A - 1): e.sig[p + 1] # 0 THEN "the mapping area is not zero at the start" ELSE ""
    [] e.op = "mmap" -> IF e.fixed = 1 /\ a # 0 THEN FixedProblem(st, a, n, e.anon = 1, o) ELSE IF e.anon = 1 THEN FreshProblem(st, n, o)
                        ELSE FreshProblem(st, n, o)
    [] e.op = "alloc" -> IF n = 0 THEN Full(st, e.sig, "an empty request changed memory") ELSE FreshProblem(st, n, o)
    [] e.op \in {"munmap", "dealloc"} -> UnmapProblem(st, a, n, o)
    [] e.op = "fill" -> IF ~(\A p \in 0..(st.A - 1): e.sig[p + 1] = IF p \in Range(a \div 4096, Pages(n)) THEN e.tag ELSE Sig(st, p)) THEN "writing to a mapping" ELSE ""
    [] OTHER -> Full(st, e.sig, "memory changed")
After(e) ==
  LET a == Cap(e.a)  n == Cap(e.n)  o == Obs(e) IN
  CASE e.op = "start" -> [A |-> e.A, S |-> e.S, bump |-> e.S, live |-> {}, sig |-> e.sig]
    [] e.op = "mmap" -> AfterMap(st, n, o)
    [] e.op = "alloc" -> IF n = 0 THEN [st EXCEPT !.sig = e.sig] ELSE AfterMap(st, n, o)
    [] e.op \in {"munmap", "dealloc"} -> AfterUnmap(st, a, n, o)
    [] OTHER -> [st EXCEPT !.sig = e.sig]
Next == /\ l <= Len(Trace)
        /\ LET e == Ev  p == Prob(e) IN
           /\ IF p = "" THEN TRUE ELSE Mismatch(l, p, [op |-> e.op, a |-> e.a, n |-> e.n, res |-> e.res, ok |-> e.ok, S |-> st.S, A |-> st.A, bump |-> st.bump, live |-> st.live, path |-> e.path])
           /\ Cover(e.op \o (IF e.op = "mmap" /\ e.fixed = 1 THEN " fixed" ELSE "") \o (IF e.ok THEN " ok" ELSE " refused"))
           /\ st' = After(e)
        /\ l' = l + 1 /\ IF l = Len(Trace) THEN Summary ELSE TRUE
Ok == l > 1 => TypeOk(st)
=============================================================================
