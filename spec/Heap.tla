-------------------------------- MODULE Heap --------------------------------
(* The native heap, seen from outside. Positions are bytes from its start.  *)
(* A state is                                                               *)
(*   [size, live |-> position -> [n |-> requested, g |-> granted bytes],    *)
(*    mem |-> every byte (<<>>: not observed), maxc |-> chunk limit,        *)
(*    fails |-> refused requests so far, peak |-> most nodes ever needed]   *)
(* An observation o of one request is [ok, pos, g, chunked, mem, acc],      *)
(* acc = [free, used, chunks, allocs, deallocs].                            *)
(* Placement is left open; what any allocator that merges free space must   *)
(* guarantee is not.                                                        *)
EXTENDS Integers, Sequences, FiniteSets
HugeN == 1073741824
Cap(w) == IF w[5] # 0 \/ w[6] # 0 \/ w[7] # 0 \/ w[8] # 0 \/ w[4] >= 64 THEN HugeN ELSE w[1] + 256 * w[2] + 65536 * w[3] + 16777216 * w[4]
Times(a, b) == IF a = 0 \/ b = 0 THEN 0 ELSE IF a > HugeN \div b THEN HugeN ELSE a * b
Round(n) == IF n >= HugeN THEN HugeN ELSE IF n <= 16 THEN 16 ELSE 16 * ((n + 15) \div 16)
Min(a, b) == IF a < b THEN a ELSE b
MaxOf(S) == CHOOSE x \in S: \A y \in S: y <= x
MinOf(S) == CHOOSE x \in S: \A y \in S: y >= x
RECURSIVE Sum(_, _)
Sum(f, S) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S: TRUE IN f[x] + Sum(f, S \ {x})
Start(size, mem, maxc) == [size |-> size, live |-> [q \in {} |-> 0], mem |-> mem, maxc |-> maxc, fails |-> 0, peak |-> 1]
Used(live) == Sum([p \in DOMAIN live |-> live[p].g], DOMAIN live)
\* free space after position s, up to the next allocation or the end
Gap(live, size, s) == MinOf({p \in DOMAIN live: p >= s} \cup {size}) - s
Ends(live) == {0} \cup {p + live[p].g: p \in DOMAIN live}
Gaps(live, size) == {s \in Ends(live): Gap(live, size, s) > 0}
MaxGap(live, size) == MaxOf({Gap(live, size, s): s \in Ends(live)} \cup {0})
Nodes(live, size) == Cardinality(DOMAIN live) + Cardinality(Gaps(live, size))
Without(live, p) == [q \in DOMAIN live \ {p} |-> live[q]]
With(live, p, n, g) == [q \in DOMAIN live \cup {p} |-> IF q = p THEN [n |-> n, g |-> g] ELSE live[q]]
\* memory other than [p, p+k) is as it was
SameBut(st, mem, p, k) == \A i \in 1..Len(st.mem): (i > p /\ i <= p + k) \/ mem[i] = st.mem[i]
Untouched(st, mem) == mem = st.mem
Disjoint(live, p, g) == \A q \in DOMAIN live: p + g <= q \/ q + live[q].g <= p
Accounts(st, live, fails, peak, o) ==
  LET a == o.acc  k == Cardinality(DOMAIN live) IN
  IF a.used # Used(live) THEN "the used bytes do not add up"
  ELSE IF a.free # st.size - Used(live) THEN "the free bytes do not add up"
  ELSE IF a.chunks < Nodes(live, st.size) - 1 \/ a.chunks > peak THEN "the chunks do not add up"
  ELSE IF a.allocs - a.deallocs < k \/ a.allocs - a.deallocs > k + fails THEN "the allocation counters do not add up"
  ELSE ""
Placed(st, live, n, o) ==
  IF o.pos < 0 \/ o.pos >= st.size THEN "outside the heap"
  ELSE IF o.pos % 16 # 0 THEN "not 16-byte aligned"
  ELSE IF o.g < n THEN "smaller than requested"
  ELSE IF o.g > st.size - o.pos THEN "outside the heap"
  ELSE IF ~Disjoint(live, o.pos, o.g) THEN "overlaps a live allocation"
  ELSE ""
First(S) == IF \A i \in 1..Len(S): S[i] = "" THEN "" ELSE S[MinOf({i \in 1..Len(S): S[i] # ""})]
Peak(st, live) == LET k == Nodes(live, st.size) IN IF k + 1 > st.peak THEN k + 1 ELSE st.peak
\* what a failed request may be excused by: no room, or the chunk limit
Excused(st, fits, o) == IF o.chunked THEN (IF o.acc.chunks >= st.maxc THEN "" ELSE "refused for want of chunks below the limit")
                        ELSE IF fits THEN "a request that fits is refused" ELSE ""
Refused(st, o) == IF ~Untouched(st, o.mem) THEN "a refused request changed memory" ELSE Accounts(st, st.live, st.fails + 1, st.peak, o)
MallocProblem(st, n, zero, o) ==
  IF ~o.ok THEN First(<<Excused(st, MaxGap(st.live, st.size) >= Round(n), o), Refused(st, o)>>)
  ELSE LET pl == Placed(st, st.live, n, o) IN
       IF pl # "" THEN pl
       ELSE IF ~SameBut(st, o.mem, o.pos, o.g) THEN "memory outside the new allocation changed"
       ELSE IF zero /\ Len(st.mem) > 0 /\ \E i \in 1..n: o.mem[o.pos + i] # 0 THEN "zero-allocated memory is not zero"
       ELSE LET lv == With(st.live, o.pos, n, o.g) IN Accounts(st, lv, st.fails, Peak(st, lv), o)
\* resizing the live allocation at p to n bytes
ReallocProblem(st, p, n, o) ==
  LET b == st.live[p]  rest == Without(st.live, p)  keep == Min(b.n, n)  need == Round(n)
      fits == need <= b.g + Gap(st.live, st.size, p + b.g) \/ MaxGap(st.live, st.size) >= need
  IN IF ~o.ok THEN (IF n = 0 /\ o.acc.used = Used(rest) THEN Accounts(st, rest, st.fails, st.peak, o)
                    ELSE First(<<Excused(st, fits, o), Refused(st, o)>>))
     ELSE LET pl == Placed(st, IF o.pos = p THEN rest ELSE st.live, n, o) IN
          IF pl # "" THEN pl
          ELSE IF ~SameBut(st, o.mem, o.pos, o.g) THEN "memory outside the new allocation changed"
          ELSE IF Len(st.mem) > 0 /\ \E i \in 1..keep: o.mem[o.pos + i] # st.mem[p + i] THEN "the contents were not kept"
          ELSE LET lv == With(rest, o.pos, n, o.g) IN Accounts(st, lv, st.fails, IF Peak(st, lv) > Peak(st, st.live) + 1 THEN Peak(st, lv) ELSE Peak(st, st.live) + 1, o)
FreeProblem(st, p, o) ==
  IF ~o.ok THEN "a live allocation cannot be freed"
  ELSE IF ~Untouched(st, o.mem) THEN "freeing changed memory"
  ELSE LET lv == Without(st.live, p) IN Accounts(st, lv, st.fails, Peak(st, lv), o)
\* freeing or resizing what is not a live allocation
AlienProblem(st, o) ==
  IF o.ok THEN "something that is not a live allocation is accepted"
  ELSE IF ~Untouched(st, o.mem) THEN "a refused request changed memory"
  ELSE Accounts(st, st.live, st.fails, st.peak, o)
Fill(mem, p, n, tag) == IF Len(mem) = 0 THEN mem ELSE [i \in 1..Len(mem) |-> IF i > p /\ i <= p + n THEN (tag + i - p) % 256 ELSE mem[i]]
\* the state after an allocation, which the client then fills
AfterAlloc(st, rest, n, o, tag) ==
  IF ~o.ok THEN [st EXCEPT !.fails = @ + 1]
  ELSE LET lv == With(rest, o.pos, n, o.g)  k == IF Peak(st, st.live) + 1 > Peak(st, lv) THEN Peak(st, st.live) + 1 ELSE Peak(st, lv) IN
       [st EXCEPT !.live = lv, !.mem = Fill(o.mem, o.pos, n, tag), !.peak = IF rest = st.live THEN Peak(st, lv) ELSE k]
AfterFree(st, p, o) == LET lv == Without(st.live, p) IN [st EXCEPT !.live = lv, !.mem = o.mem, !.peak = Peak(st, lv)]
TypeOk(st) ==
  /\ \A p \in DOMAIN st.live: p >= 0 /\ p % 16 = 0 /\ st.live[p].g >= st.live[p].n /\ p + st.live[p].g <= st.size /\ Disjoint(Without(st.live, p), p, st.live[p].g)
  /\ (DOMAIN st.live = {} => MaxGap(st.live, st.size) = st.size)
=============================================================================
