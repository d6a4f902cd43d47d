----------------------------- MODULE SharedTrace -----------------------------
(* Recorded machines and the identities of their decoded code.              *)
EXTENDS TraceLib, Shared, FiniteSets
VARIABLES l, progs, st
vars == <<l, progs, st>>
Init == l = 1 /\ progs = <<>> /\ st = <<>> /\ Counters
\* st: the machines as the operations leave them, by number
New(p, sh, ar) == [p |-> p, q |-> p, sh |-> sh, acc |-> FALSE, ev |-> FALSE, ar |-> ar]
Seen(e) == {e.live[i].m : i \in DOMAIN e.live}
Live(e, m) == LET i == CHOOSE i \in DOMAIN e.live : e.live[i].m = m IN e.live[i]
Rec(x) == [p |-> x.p, q |-> x.q, sh |-> x.sh, acc |-> x.acc, ev |-> x.ev, ar |-> x.ar]
After(e) ==
  CASE e.op = "create" -> (e.m :> New(e.arg, Live(e, e.m).sh, Live(e, e.m).ar)) @@ st
    [] e.op = "destroy" -> [m \in DOMAIN st \ {e.m} |-> st[m]]
    [] e.op = "accel" -> [st EXCEPT ![e.m].acc = TRUE]
    [] e.op = "evict" -> [st EXCEPT ![e.m].ev = TRUE, ![e.m].acc = FALSE]
    [] e.op = "reload" -> [st EXCEPT ![e.m].q = e.arg, ![e.m].ev = FALSE, ![e.m].acc = FALSE]
    [] OTHER -> <<>>
SeqProb(e, s) ==
  IF e.out # "ok" THEN "the operation failed"
  ELSE IF Seen(e) # DOMAIN s THEN "harness: machines differ"
  ELSE IF \E m \in DOMAIN s : Rec(Live(e, m)) # s[m] THEN "harness: machines differ"
  ELSE LET used == UNION {{Live(e, m).ids[i] : i \in DOMAIN Live(e, m).ids} : m \in DOMAIN s} \ {0}
           extra == {e.alive[i] : i \in DOMAIN e.alive} \ used
           copies == {m \in DOMAIN s : s[m].acc /\ s[m].sh} IN
       IF \E m \in DOMAIN s : LET x == Live(e, m) IN IF s[m].ev THEN x.out # "exec" ELSE x.out # "ok" \/ x.v # RunResult(progs, s[m]) THEN "a machine did not run the code it loaded"
       ELSE IF \E m \in DOMAIN s : (\E i \in DOMAIN Pieces(progs, s[m]) : Live(e, m).ids[i] = 0) THEN "code is missing"
       ELSE IF \E m, n \in DOMAIN s : m < n /\ ~PairOk(progs, s[m], Live(e, m).ids, s[n], Live(e, n).ids) THEN "code shared where it must not be, or not shared where it must be"
       ELSE IF Cardinality(extra) > Cardinality(copies) THEN "code outlives its last user" ELSE ""
\* concurrent lives: two machines that were both complete at one moment
PX(x) == [p |-> x.p, q |-> x.p, sh |-> x.sh, acc |-> FALSE, ev |-> FALSE, ar |-> x.ar]
Together(x, y) == x.born1 < y.mid /\ y.born1 < x.mid
ThreadsProb(e) ==
  LET ls == e.lives IN
  IF e.left # 0 THEN "code outlives its last user"
  ELSE IF \E i \in DOMAIN ls : (\E k \in DOMAIN ls[i].plain : ls[i].plain[k] # RunResult(progs, PX(ls[i]))) \/ (\E k \in DOMAIN ls[i].accd : ls[i].accd[k] # RunResult(progs, [PX(ls[i]) EXCEPT !.acc = TRUE])) THEN "a machine did not run the code it loaded"
  ELSE IF \E i \in DOMAIN ls : \E j \in (i + 1)..Len(ls) : Together(ls[i], ls[j]) /\ ~PairOk(progs, PX(ls[i]), ls[i].ids, PX(ls[j]), ls[j].ids) THEN "code shared where it must not be, or not shared where it must be" ELSE ""
Next == /\ l <= Len(Trace)
        /\ LET e == Trace[l] IN
           IF e.op = "programs" THEN progs' = e.progs /\ st' = <<>>
           ELSE IF e.op = "threads" THEN LET p == ThreadsProb(e) IN (IF p = "" THEN TRUE ELSE Mismatch(l, p, [lives |-> Len(e.lives), left |-> e.left])) /\ Cover("concurrent round") /\ UNCHANGED <<progs, st>>
           ELSE LET s == After(e)  p == SeqProb(e, s) IN
                /\ IF p = "" THEN TRUE ELSE Mismatch(l, p, [op |-> e.op, m |-> e.m, arg |-> e.arg, live |-> e.live, alive |-> e.alive])
                /\ Cover(e.op) /\ progs' = progs /\ st' = s
        /\ l' = l + 1 /\ IF l = Len(Trace) THEN Summary ELSE TRUE
=============================================================================
