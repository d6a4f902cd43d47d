----------------------------- MODULE Containers -----------------------------
(* Guest containers (C++ and Rust strings and vectors) handled by the host. *)
(* A container is the sequence an ordinary one would be after the same      *)
(* operations; it owns blocks of the guest heap, each exactly once, and     *)
(* nothing else is left in the heap. An operation may only be refused when  *)
(* it asks for an element that is not there or for room the heap lacks, and *)
(* then it changed nothing.                                                 *)
EXTENDS Integers, Sequences, FiniteSets
Sso == 15
Kinds == {"str", "rstr", "vi", "vq", "vs", "vv", "rvi", "rvs"}
Flat == {"str", "rstr"}
Strings == {"str", "vs"}                 \* C++ strings, stored inside when short
Nested == {"vs", "vv", "rvs"}            \* elements own blocks as well
Width(k) == CASE k \in Flat -> 1 [] k \in {"vi", "rvi"} -> 4 [] k = "vq" -> 16 [] k = "vs" -> 32 [] OTHER -> 24
Default(k) == IF k \in Nested THEN <<>> ELSE 0
Obj(k, v) == [k |-> k, null |-> FALSE, v |-> v]
Null(k) == [k |-> k, null |-> TRUE, v |-> <<>>]

\* what an operation makes of the sequence v
Grown(v, n, x) == IF n <= Len(v) THEN SubSeq(v, 1, n) ELSE v \o [i \in 1..(n - Len(v)) |-> x]
Result(k, v, o) ==
  CASE o.op \in {"set", "new"} -> o.val
    [] o.op = "push" -> Append(v, o.x)
    [] o.op = "pushown" -> Append(v, v[o.i + 1])
    [] o.op = "setown" -> SubSeq(v, o.i + 1, o.i + o.n)
    [] o.op = "append" -> v \o o.val
    [] o.op = "pop" -> SubSeq(v, 1, Len(v) - 1)
    [] o.op = "resize" -> Grown(v, o.n, Default(k))
    [] o.op \in {"clear", "free"} -> <<>>
    [] o.op = "setat" -> [v EXCEPT ![o.i + 1] = o.x]
    [] o.op = "pushat" -> [v EXCEPT ![o.i + 1] = Append(@, o.y)]
    [] OTHER -> v
\* the operation makes no sense for this sequence and must be refused
Senseless(k, v, o) ==
  CASE o.op = "pop" -> Len(v) = 0
    [] o.op \in {"setat", "pushat", "pushown"} -> o.i >= Len(v)
    [] o.op \in {"resize", "reserve"} -> o.n >= 268435456
    [] OTHER -> FALSE

\* a generous bound of the heap room a sequence may ask for while changing
Round(n) == ((n + 15) \div 16) * 16 + 16
RECURSIVE Total(_, _, _)
Total(k, v, i) == IF i > Len(v) THEN 0 ELSE Round(Len(v[i]) * (IF k = "vv" THEN 4 ELSE 1) + 17) + Total(k, v, i + 1)
Bytes(k, v) == Round((Len(v) + 5) * Width(k)) + IF k \in Nested THEN Total(k, v, 1) ELSE 0
Need(k, v, o) == 256 + 4 * (Bytes(k, v) + IF Senseless(k, v, o) THEN 0 ELSE Bytes(k, Result(k, v, o)))
                 + (IF o.op \in {"resize", "reserve"} THEN 2 * Width(k) * o.n ELSE 0) + (IF o.op = "pushat" THEN 4096 ELSE 0)
MayRefuse(k, v, o, room) == Senseless(k, v, o) \/ room < Need(k, v, o)

(* The observed form of one container: what the host reads, what the guest  *)
(* reads from the layout, the strings' encoding, blocks [at, size, need].   *)
RECURSIVE SumOf(_, _)
SumOf(s, i) == IF i > Len(s) THEN 0 ELSE s[i] + SumOf(s, i + 1)
Storage(objs) == SumOf([i \in 1..Len(objs) |-> SumOf([j \in 1..Len(objs[i].blocks) |-> objs[i].blocks[j][2]], 1)], 1)
RECURSIVE Flatten(_, _)
Flatten(objs, i) == IF i > Len(objs) THEN <<>> ELSE objs[i].blocks \o Flatten(objs, i + 1)
Overlap(b, c) == b[1] < c[1] + c[2] /\ c[1] < b[1] + b[2]
EncodingOk(s) == s.nul = 0 /\ (s.inl <=> s.len <= Sso)
BlocksProblem(objs) ==
  LET b == Flatten(objs, 1) IN
  IF \E i \in DOMAIN b: b[i][2] = 0 THEN "a container points to storage that is not allocated"
  ELSE IF \E i \in DOMAIN b: b[i][2] < b[i][3] THEN "storage is smaller than what it holds"
  ELSE IF \E i, j \in DOMAIN b: i < j /\ Overlap(b[i], b[j]) THEN "storage has two owners"
  ELSE ""
\* want: what the containers should be; o: one observed container
ObjProblem(want, o) ==
  IF o.null # want.null THEN "a container is gone or still there"
  ELSE IF want.null THEN ""
  ELSE IF o.hbad \/ o.host # want.v THEN "the host sees other contents"
  ELSE IF o.gbad \/ o.guest # want.v THEN "the guest sees other contents"
  ELSE IF \E i \in DOMAIN o.strs: ~EncodingOk(o.strs[i]) THEN "a string is not laid out as the guest expects"
  ELSE IF o.k \notin Flat /\ o.cap < Len(want.v) THEN "capacity below size"
  ELSE ""
=============================================================================
