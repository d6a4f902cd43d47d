------------------------------- MODULE MCHeap -------------------------------
(* The allocator's algorithm -- a list of chunks, first fit, splitting,     *)
(* merging with both neighbours, growing in place -- against Heap.tla,      *)
(* exhaustively for a small heap. Operations of every transition are        *)
(* printed and replayed on the real heap.                                   *)
EXTENDS Heap, TLC, Json
CONSTANTS Depth, Granules, Sizes, Maxc, Emit
VARIABLES st, ch, nodes, path, why
vars == <<st, ch, nodes, path, why>>
Size == 16 * Granules
\* ch: list of [p, s, f]; nodes: chunks ever created (they are recycled)
Init == st = Start(Size, <<>>, Maxc) /\ ch = <<[p |-> 0, s |-> Size, f |-> TRUE]>> /\ nodes = 0 /\ path = <<>> /\ why = ""
Idx(c, p) == {i \in 1..Len(c): ~c[i].f /\ c[i].p = p}
Fits(c, n) == {i \in 1..Len(c): c[i].f /\ c[i].s >= n}
Cut(c, i) == SubSeq(c, 1, i - 1) \o SubSeq(c, i + 1, Len(c))
Insert(c, i, x) == SubSeq(c, 1, i) \o <<x>> \o SubSeq(c, i + 1, Len(c))
Need(n) == Round(n)
\* [ok, chunked, pos, c, nodes]
DoMalloc(c, nd, n) ==
  LET fit == Fits(c, Need(n)) IN
  IF fit = {} THEN [ok |-> FALSE, chunked |-> FALSE, pos |-> -1, c |-> c, nodes |-> nd]
  ELSE LET i == MinOf(fit)  split == c[i].s > Need(n)  new == IF split /\ Len(c) - 1 = nd THEN nd + 1 ELSE nd IN
       IF new > Maxc THEN [ok |-> FALSE, chunked |-> TRUE, pos |-> -1, c |-> c, nodes |-> nd]
       ELSE [ok |-> TRUE, chunked |-> FALSE, pos |-> c[i].p, nodes |-> new,
             c |-> LET d == [c EXCEPT ![i] = [p |-> @.p, s |-> Need(n), f |-> FALSE]] IN
                   IF split THEN Insert(d, i, [p |-> c[i].p + Need(n), s |-> c[i].s - Need(n), f |-> TRUE]) ELSE d]
Join(c, i) == Cut([c EXCEPT ![i].s = @ + c[i + 1].s], i + 1)
DoFree(c, i) ==
  LET a == [c EXCEPT ![i].f = TRUE]
      b == IF i < Len(a) /\ a[i + 1].f THEN Join(a, i) ELSE a
  IN IF i > 1 /\ b[i - 1].f THEN Join(b, i - 1) ELSE b
DoRealloc(c, nd, i, n) ==
  LET need == Need(n)
      grow == i < Len(c) /\ c[i + 1].f /\ c[i].s + c[i + 1].s >= need
      more == need - c[i].s
  IN IF c[i].s >= need THEN [ok |-> TRUE, chunked |-> FALSE, pos |-> c[i].p, c |-> c, nodes |-> nd]
     ELSE IF grow THEN [ok |-> TRUE, chunked |-> FALSE, pos |-> c[i].p, nodes |-> nd,
                        c |-> LET d == [c EXCEPT ![i].s = need, ![i + 1].s = @ - more, ![i + 1].p = @ + more] IN IF d[i + 1].s = 0 THEN Cut(d, i + 1) ELSE d]
     ELSE LET m == DoMalloc(c, nd, n) IN
          IF ~m.ok THEN m ELSE [m EXCEPT !.c = LET j == CHOOSE j \in Idx(m.c, c[i].p): TRUE IN DoFree(m.c, j)]
Acc(c, nd, live, fails) == [used |-> Sum([i \in 1..Len(c) |-> IF c[i].f THEN 0 ELSE c[i].s], 1..Len(c)), free |-> Sum([i \in 1..Len(c) |-> IF c[i].f THEN c[i].s ELSE 0], 1..Len(c)),
                            chunks |-> nd, allocs |-> live + fails, deallocs |-> 0]
Grant(c, p) == LET s == Idx(c, p) IN IF s = {} THEN 0 ELSE c[CHOOSE i \in s: TRUE].s
Obs(r, live, fails) == [ok |-> r.ok, pos |-> r.pos, g |-> IF r.ok THEN Grant(r.c, r.pos) ELSE 0, chunked |-> r.chunked, mem |-> <<>>, acc |-> Acc(r.c, r.nodes, live, fails)]
Step(op, r, problem, after) == why' = problem /\ st' = after /\ ch' = r.c /\ nodes' = r.nodes /\ path' = Append(path, op) /\ (Emit => PrintT("PATH " \o ToJson(path')))
Card == Cardinality(DOMAIN st.live)
Malloc(n) == LET r == DoMalloc(ch, nodes, n)  o == Obs(r, IF r.ok THEN Card + 1 ELSE Card, IF r.ok THEN st.fails ELSE st.fails + 1) IN
             Step([op |-> "malloc", n |-> n], r, MallocProblem(st, n, FALSE, o), AfterAlloc(st, st.live, n, o, 0))
Realloc(p, n) == LET r == DoRealloc(ch, nodes, CHOOSE i \in Idx(ch, p): TRUE, n)  o == Obs(r, Card, IF r.ok THEN st.fails ELSE st.fails + 1) IN
             Step([op |-> "realloc", at |-> p, n |-> n], r, ReallocProblem(st, p, n, o), AfterAlloc(st, Without(st.live, p), n, o, 0))
Free(p) == LET c == DoFree(ch, CHOOSE i \in Idx(ch, p): TRUE)  r == [ok |-> TRUE, chunked |-> FALSE, pos |-> p, c |-> c, nodes |-> nodes]  o == [Obs(r, Card - 1, st.fails) EXCEPT !.g = 0] IN
             Step([op |-> "free", at |-> p], r, FreeProblem(st, p, o), AfterFree(st, p, o))
Alien(op, p) == LET r == [ok |-> FALSE, chunked |-> FALSE, pos |-> -1, c |-> ch, nodes |-> nodes]  o == Obs(r, Card, st.fails) IN
             Step([op |-> op, at |-> p, n |-> 16], r, AlienProblem(st, o), st)
Next == /\ Len(path) < Depth
        /\ \/ \E n \in Sizes: Malloc(n)
           \/ \E p \in DOMAIN st.live: Free(p) \/ \E n \in Sizes: Realloc(p, n)
           \/ \E g \in 0..Granules: 16 * g \notin DOMAIN st.live /\ (Alien("free", 16 * g) \/ Alien("realloc", 16 * g))
Spec == Init /\ [][Next]_vars
\* the algorithm does what the specification demands, and its list is sound
RefAllowed == why = ""
Tiles == /\ ch[1].p = 0 /\ ch[Len(ch)].p + ch[Len(ch)].s = Size
         /\ \A i \in 1..(Len(ch) - 1): ch[i].p + ch[i].s = ch[i + 1].p /\ ~(ch[i].f /\ ch[i + 1].f)
         /\ \A i \in 1..Len(ch): ch[i].s > 0
         /\ {ch[i].p: i \in {i \in 1..Len(ch): ~ch[i].f}} = DOMAIN st.live
Sound == TypeOk(st) /\ Len(ch) - 1 <= nodes /\ nodes <= Maxc
View == <<ch, nodes, [p \in DOMAIN st.live |-> st.live[p].g], why>>
=============================================================================
