------------------------------- MODULE MCMmap -------------------------------
(* The simple allocator the emulator documents (a rising address that       *)
(* unmapping the last range lowers again, memory handed out a second time   *)
(* cleared) against Mmap.tla, exhaustively for a small mapping area. Every  *)
(* transition's operations are printed and replayed on a real machine.      *)
EXTENDS Mmap, TLC, Json
CONSTANTS Depth, Area, Emit
First == 3
VARIABLES st, path, high, why
vars == <<st, path, high, why>>
Start == [A |-> First + Area, S |-> First, bump |-> First, live |-> {}, sig |-> [p \in 1..(First + Area) |-> IF p <= First THEN 256 ELSE 0]]
Init == st = Start /\ path = <<>> /\ high = First /\ why = ""
Lens == {0, 1, 4096, 4097, 8192, 4096 * Area, 4096 * (Area + 1), HugeN}
Addrs == {4096 * p: p \in (First - 1)..(First + Area)} \cup {4096 * (First + 1) + 8}
Ops == {[op |-> "mmap", a |-> 0, n |-> n, fixed |-> 0, anon |-> 1]: n \in Lens}
       \cup {[op |-> "mmap", a |-> a, n |-> n, fixed |-> 1, anon |-> 1]: a \in Addrs, n \in {1, 4096, 8192, HugeN}}
       \cup {[op |-> "munmap", a |-> a, n |-> n]: a \in Addrs, n \in {1, 4096, 8192, 4096 * Area, HugeN}}
\* the reference allocator: [ok, addr, st]
Cleared(sig, r) == [p \in DOMAIN sig |-> IF p - 1 \in r THEN 0 ELSE sig[p]]
Fill(sig, r, t) == [p \in DOMAIN sig |-> IF p - 1 \in r THEN t ELSE sig[p]]
Refuse == [ok |-> FALSE, addr |-> 0, sig |-> st.sig]
Take(np) == [ok |-> TRUE, addr |-> 4096 * st.bump, sig |-> Cleared(st.sig, {p \in Range(st.bump, np): p < high})]
Impl(o) ==
  CASE o.op = "mmap" /\ o.n = 0 -> Refuse
    [] o.op = "mmap" /\ o.n > 0 /\ o.fixed = 0 -> IF Pages(o.n) > st.A - st.bump THEN Refuse ELSE Take(Pages(o.n))
    [] o.op = "mmap" /\ o.n > 0 /\ o.fixed = 1 ->
         IF o.a % 4096 # 0 \/ o.a < 4096 * st.S \/ o.a >= 4096 * st.bump THEN Refuse
         ELSE LET p == o.a \div 4096  in == IF Pages(o.n) < st.bump - p THEN Pages(o.n) ELSE st.bump - p IN
              IF Pages(o.n) - in > st.A - st.bump THEN Refuse
              ELSE [ok |-> TRUE, addr |-> o.a, sig |-> Cleared(st.sig, Range(p, in) \cup {q \in Range(st.bump, Pages(o.n) - in): q < high})]
    [] OTHER -> [ok |-> TRUE, addr |-> 0, sig |-> st.sig]
Tag(n) == 1 + n
\* a successful mapping is then filled, so that what is not cleared shows
Do(o) ==
  LET i == Impl(o)
      pr == IF o.op = "munmap" THEN UnmapProblem(st, o.a, o.n, i)
            ELSE IF o.fixed = 1 THEN FixedProblem(st, o.a, o.n, TRUE, i) ELSE FreshProblem(st, o.n, i)
      s2 == IF o.op = "munmap" THEN AfterUnmap(st, o.a, o.n, i) ELSE AfterMap(st, o.n, i)
      s3 == IF o.op = "mmap" /\ i.ok THEN [s2 EXCEPT !.sig = Fill(@, Range(i.addr \div 4096, Pages(o.n)), Tag(Len(path)))] ELSE s2
  IN /\ st' = s3 /\ why' = pr /\ path' = Append(path, o)
     /\ high' = IF s3.bump > high THEN s3.bump ELSE high
     /\ (Emit => PrintT("PATH " \o ToJson(path')))
Next == Len(path) < Depth /\ \E o \in Ops: Do(o)
Spec == Init /\ [][Next]_vars
RefAllowed == why = ""
Bounds == TypeOk(st) /\ high >= st.bump /\ \A p \in st.live: p < st.bump
UntouchedZero == \A p \in high..(st.A - 1): Sig(st, p) = 0
\* tags are told apart only by whether a page is dirty
View == <<st.bump, st.live, [p \in DOMAIN st.sig |-> IF st.sig[p] = 0 THEN 0 ELSE 1], high, why>>
=============================================================================
