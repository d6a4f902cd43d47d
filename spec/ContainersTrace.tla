--------------------------- MODULE ContainersTrace ---------------------------
(* Recorded host operations on real guest containers, against Containers.   *)
EXTENDS TraceLib, Containers
VARIABLES l, objs
Init == l = 1 /\ objs = <<>> /\ Counters
Slot(e, i) == CHOOSE j \in 1..Len(e.objs): e.objs[j].s = i
Has(i) == i \in DOMAIN objs
Cur(e) == objs[e.s]
\* the containers after e, as a set of allowed functions
With(f, i, x) == [j \in DOMAIN f \union {i} |-> IF j = i THEN x ELSE f[j]]
Drop(f, i) == [j \in DOMAIN f \ {i} |-> f[j]]
Empty == [j \in {} |-> 0]
Wants(e) ==
  IF e.op \in {"start", "note"} THEN {IF e.op = "start" THEN Empty ELSE objs}
  \* a container whose contents were moved away may come back empty when setting it is refused
  ELSE IF ~e.ok THEN {objs} \union (IF e.op = "set" /\ Cur(e).null THEN {With(objs, e.s, Obj(Cur(e).k, <<>>))} ELSE {})
  ELSE CASE e.op = "new" -> {With(objs, e.s, Obj(e.k, e.val))}
    [] e.op = "destroy" -> {Drop(objs, e.s)}
    [] e.op = "move" -> LET a == objs[e.s]  b == objs[e.t] IN
         IF e.s = e.t THEN {objs}
         ELSE IF e.scoped THEN {With(With(objs, e.s, b), e.t, Null(b.k))}
         ELSE {With(With(objs, e.s, b), e.t, a), With(With(objs, e.s, b), e.t, Obj(b.k, <<>>))}
    [] OTHER -> {With(objs, e.s, Obj(Cur(e).k, Result(Cur(e).k, Cur(e).v, e)))}
RefusalProblem(e) ==
  IF e.op \in {"start", "note", "destroy"} THEN (IF e.ok THEN "" ELSE "the operation failed")
  ELSE IF e.op = "move" THEN (IF e.ok THEN "" ELSE "moving failed")
  ELSE LET k == IF e.op = "new" THEN e.k ELSE Cur(e).k  v == IF e.op = "new" THEN <<>> ELSE Cur(e).v IN
       IF e.ok /\ Senseless(k, v, e) THEN "an operation that must be refused was carried out"
       ELSE IF ~e.ok /\ ~MayRefuse(k, v, e, e.room) THEN "refused though there is room" ELSE ""
StateProblem(e, w) ==
  IF {e.objs[j].s: j \in 1..Len(e.objs)} # DOMAIN w THEN "driver and specification disagree about which containers exist"
  ELSE LET bad == {i \in DOMAIN w: ObjProblem(w[i], e.objs[Slot(e, i)]) # ""} IN
       IF bad = {} THEN "" ELSE LET i == CHOOSE i \in bad: TRUE IN ObjProblem(w[i], e.objs[Slot(e, i)])
Good(e) == {w \in Wants(e): StateProblem(e, w) = ""}
Prob(e) ==
  LET r == RefusalProblem(e) IN
  IF r # "" THEN r
  ELSE IF Good(e) = {} THEN StateProblem(e, CHOOSE w \in Wants(e): TRUE)
  ELSE LET b == BlocksProblem(e.objs) IN
  IF b # "" THEN b
  ELSE IF e.used # e.filler + Storage(e.objs) THEN (IF e.used > e.filler + Storage(e.objs) THEN "heap storage is left without an owner" ELSE "heap storage is freed while owned")
  ELSE IF e.op = "reserve" /\ e.ok /\ e.objs[Slot(e, e.s)].cap < e.n THEN "reserved less than asked for"
  ELSE ""
\* after a problem the history up to the next start says nothing more
Dead == 0 \in DOMAIN objs
Next == /\ l <= Len(Trace)
        /\ LET e == Trace[l]  p == IF Dead /\ e.op # "start" THEN "" ELSE Prob(e) IN
           /\ IF p = "" THEN TRUE ELSE Mismatch(l, p, [op |-> e.op, how |-> e.how, path |-> e.path, ok |-> e.ok, room |-> e.room, used |-> e.used, filler |-> e.filler, objs |-> ToString(e.objs), want |-> IF e.op = "start" THEN "" ELSE ToString(Wants(e))])
           /\ Cover(e.op \o " " \o (IF e.op \in {"start", "note"} THEN "" ELSE IF Dead THEN "" ELSE IF e.op = "new" THEN e.k ELSE Cur(e).k) \o (IF e.ok THEN " ok" ELSE " refused"))
           /\ objs' = IF e.op # "start" /\ (Dead \/ p # "") THEN (0 :> 0) ELSE IF p # "" THEN (0 :> 0) ELSE CHOOSE w \in Good(e): TRUE
        /\ l' = l + 1 /\ IF l = Len(Trace) THEN Summary ELSE TRUE
=============================================================================
