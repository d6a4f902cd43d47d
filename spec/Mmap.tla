-------------------------------- MODULE Mmap --------------------------------
(* Memory mappings, in pages. A state is                                    *)
(*   [A |-> pages of the arena, S |-> first page of the mapping area,       *)
(*    bump |-> bound below which pages may be taken, live |-> mapped pages, *)
(*    sig |-> content of every page: 0 all zero, 1..255 filled with that,   *)
(*            256 and up anything else]                                     *)
(* The specification fixes what any allocator must guarantee, not the       *)
(* addresses it picks. bump tells how much a simple allocator may have      *)
(* wasted: a request may be refused only if it does not fit above it.       *)
EXTENDS Integers, Sequences, FiniteSets
HugeN == 1073741824
Cap(w) == IF w[5] # 0 \/ w[6] # 0 \/ w[7] # 0 \/ w[8] # 0 \/ w[4] >= 64 THEN HugeN ELSE w[1] + 256 * w[2] + 65536 * w[3] + 16777216 * w[4]
Pages(n) == (n + 4095) \div 4096
Range(p, n) == {q \in p..(p + n - 1): TRUE}
Sig(st, p) == st.sig[p + 1]
Same(st, sig, except) == \A p \in 0..(st.A - 1): p \in except \/ sig[p + 1] = Sig(st, p)
AllZero(sig, ps) == \A p \in ps: sig[p + 1] = 0
Full(st, sig, why) == IF \E p \in 0..(st.A - 1): sig[p + 1] # Sig(st, p) THEN why ELSE ""

\* a request for n bytes anywhere; o: [ok, addr (number), sig]
FreshProblem(st, n, o) ==
  LET np == Pages(n)  p == o.addr \div 4096  r == Range(p, np) IN
  IF ~o.ok THEN (IF np <= st.A - st.bump /\ n > 0 THEN "a request that fits is refused" ELSE Full(st, o.sig, "a refused request changed memory"))
  ELSE IF n = 0 THEN "an empty request succeeds"
  ELSE IF o.addr % 4096 # 0 THEN "not page-aligned"
  ELSE IF p < st.S \/ np > st.A \/ p + np > st.A THEN "outside the mapping area"
  ELSE IF r \cap st.live # {} THEN "overlaps a live mapping"
  ELSE IF ~AllZero(o.sig, r) THEN "does not read as zero"
  ELSE IF ~Same(st, o.sig, r) THEN "other memory changed"
  ELSE ""
\* a request for n bytes at address a exactly; anon: the content must become zero
FixedProblem(st, a, n, anon, o) ==
  LET np == Pages(n)  p == a \div 4096  r == Range(p, np)
      tail == IF n % 4096 = 0 THEN {} ELSE {p + np - 1}
      inside == a < HugeN /\ a % 4096 = 0 /\ p >= st.S /\ p < st.A /\ np <= st.A - p
  IN IF ~o.ok THEN (IF n > 0 /\ inside /\ p < st.bump THEN "a fixed request inside the mapping area is refused" ELSE Full(st, o.sig, "a refused request changed memory"))
     ELSE IF n = 0 THEN "an empty request succeeds"
     ELSE IF ~inside THEN "a fixed address outside the mapping area is honoured"
     ELSE IF o.addr # a THEN "not at the fixed address"
     ELSE IF ~Same(st, o.sig, r) THEN "other memory changed"
     ELSE IF anon /\ ~AllZero(o.sig, r \ tail) THEN "does not read as zero"
     ELSE IF ~AllZero(o.sig, {q \in r: q >= st.bump}) THEN "new pages do not read as zero"
     ELSE ""
AfterMap(st, n, o) ==
  LET p == o.addr \div 4096  np == Pages(n) IN
  IF ~o.ok \/ n = 0 \/ n >= HugeN \/ np > st.A THEN [st EXCEPT !.sig = o.sig]
  ELSE [st EXCEPT !.sig = o.sig, !.live = @ \cup Range(p, np), !.bump = IF @ < p + np THEN p + np ELSE @]
\* unmapping n bytes at a
UnmapRange(st, a, n) == IF a >= HugeN \/ n >= HugeN THEN {} ELSE {p \in 0..(st.A - 1): 4096 * p < a + n /\ 4096 * p + 4096 > a}
UnmapProblem(st, a, n, o) ==
  LET r == UnmapRange(st, a, n) IN
  IF ~Same(st, o.sig, r \cap st.live) THEN "unmapping changed memory that was not unmapped" ELSE ""
Pops(st, a, n) == a < HugeN /\ n < HugeN /\ a % 4096 = 0 /\ a \div 4096 >= st.S /\ a \div 4096 < st.bump /\ a \div 4096 + Pages(n) = st.bump
AfterUnmap(st, a, n, o) ==
  LET lv == st.live \ UnmapRange(st, a, n) IN
  [st EXCEPT !.sig = o.sig, !.live = lv, !.bump = IF Pops(st, a, n) THEN a \div 4096 ELSE @]
TypeOk(st) == /\ st.S <= st.bump /\ st.bump <= st.A /\ \A p \in st.live: p >= st.S /\ p < st.A
=============================================================================
