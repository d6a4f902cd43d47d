----------------------------- MODULE MCMachines -----------------------------
(* Machines as the library builds them -- memory of their own, decoded code  *)
(* shared between equal programs and copied before it is patched, symbols    *)
(* looked up by name -- against machines alone, whose state is a function of *)
(* their own operations. Bug names a broken variant. Prints interleavings.   *)
EXTENDS Machines, FiniteSets, TLC, Json
CONSTANTS Depth, Count, Programs, Ops, Bug, Emit
Ids == 0..(Count - 1)
\* ------------------------------------------------ alone: a fold over the operations
Dead == [live |-> FALSE, p |-> 0, q |-> 0, acc |-> FALSE, ev |-> FALSE, mem |-> 0, limit |-> 0, last |-> "none"]
\* what running the code of program q does to memory, patched or not
Effect(q, acc) == 2 * q + (IF acc THEN 1 ELSE 0)
Alone(s, o) ==
  CASE o.op = "create" -> [Dead EXCEPT !.live = TRUE, !.p = o.n, !.q = o.n, !.last = "ok"]
    [] ~s.live -> [s EXCEPT !.last = "none"]
    [] o.op = "destroy" -> [Dead EXCEPT !.last = "ok"]
    [] o.op = "accel" -> [s EXCEPT !.acc = ~s.ev, !.last = "ok"]
    [] o.op = "evict" -> [s EXCEPT !.ev = TRUE, !.acc = FALSE, !.last = "ok"]
    [] o.op = "reload" -> IF s.ev THEN [s EXCEPT !.ev = FALSE, !.q = o.n, !.last = "ok"] ELSE [s EXCEPT !.last = "ok"]
    [] o.op \in {"run", "call"} -> IF s.ev THEN [s EXCEPT !.last = "exec"] ELSE [s EXCEPT !.mem = 7 * @ + 1 + Effect(s.q, s.acc), !.limit = IF o.op = "run" THEN 2 ELSE @, !.last = "ok"]
    [] o.op = "stop" -> [s EXCEPT !.limit = 0, !.last = "ok"]
    [] OTHER -> [s EXCEPT !.mem = 7 * @ + 3, !.last = o.op]
\* ------------------------------------------------ as built
VARIABLES ms, seg, use, one, cache, hist, path
vars == <<ms, seg, use, one, cache, hist, path>>
\* ms[m]: its own part; use[m]: the decoded code it runs; seg: id -> [q, acc]; one: a limit shared by mistake; cache: a symbol found for somebody
Init == /\ ms = [m \in Ids |-> Dead] /\ seg = <<>> /\ use = [m \in Ids |-> 0] /\ one = 0 /\ cache = 99 /\ hist = [m \in Ids |-> Dead] /\ path = <<>>
Fresh == CHOOSE i \in 1..(Cardinality(DOMAIN seg) + 1) : i \notin DOMAIN seg
Found(q) == {i \in DOMAIN seg : seg[i].key = q}
Gc(sg, us) == [i \in {i \in DOMAIN sg : \E m \in Ids : us[m] = i} |-> sg[i]]
Load(m, q) == LET i == IF Found(q) # {} THEN CHOOSE i \in Found(q) : TRUE ELSE Fresh  us == [use EXCEPT ![m] = i]
                  sg == IF i \in DOMAIN seg THEN seg ELSE (i :> [key |-> q, q |-> q, acc |-> FALSE]) @@ seg IN use' = us /\ seg' = Gc(sg, us)
Built(m, o) ==
  LET s == ms[m] IN
  CASE o.op = "create" -> ms' = [ms EXCEPT ![m] = [Dead EXCEPT !.live = TRUE, !.p = o.n, !.last = "ok"]] /\ Load(m, o.n) /\ UNCHANGED <<one, cache>>
    [] o.op = "destroy" -> /\ ms' = [ms EXCEPT ![m] = [Dead EXCEPT !.last = IF s.live THEN "ok" ELSE "none"]] /\ use' = [use EXCEPT ![m] = 0] /\ UNCHANGED <<one, cache>>
                           /\ seg' = IF Bug = "forget" THEN [i \in DOMAIN seg \ {use[m]} |-> seg[i]] ELSE Gc(seg, [use EXCEPT ![m] = 0])
    [] ~s.live -> ms' = [ms EXCEPT ![m].last = "none"] /\ UNCHANGED <<seg, use, one, cache>>
    [] o.op = "accel" -> /\ ms' = [ms EXCEPT ![m].last = "ok"]
                         /\ IF use[m] = 0 THEN UNCHANGED <<seg, use>> ELSE IF Bug = "inplace" THEN seg' = [seg EXCEPT ![use[m]].acc = TRUE] /\ UNCHANGED use
                            ELSE IF seg[use[m]].key = 0 - 1 THEN UNCHANGED <<seg, use>>
                            ELSE LET i == Fresh  us == [use EXCEPT ![m] = i] IN use' = us /\ seg' = Gc((i :> [key |-> 0 - 1, q |-> seg[use[m]].q, acc |-> TRUE]) @@ seg, us)
                         /\ UNCHANGED one /\ cache' = IF cache = 99 THEN s.p ELSE cache
    [] o.op = "evict" -> ms' = [ms EXCEPT ![m].ev = TRUE, ![m].last = "ok"] /\ use' = [use EXCEPT ![m] = 0] /\ seg' = Gc(seg, [use EXCEPT ![m] = 0]) /\ UNCHANGED <<one, cache>>
    [] o.op = "reload" -> /\ UNCHANGED <<one, cache>> /\ IF s.ev THEN ms' = [ms EXCEPT ![m].ev = FALSE, ![m].last = "ok"] /\ Load(m, o.n) ELSE ms' = [ms EXCEPT ![m].last = "ok"] /\ UNCHANGED <<seg, use>>
    [] o.op \in {"run", "call"} ->
         /\ UNCHANGED <<seg, use>>
         /\ IF use[m] = 0 THEN ms' = [ms EXCEPT ![m].last = "exec"] /\ UNCHANGED <<one, cache>>
            ELSE /\ cache' = IF cache = 99 THEN s.p ELSE cache
                 /\ ms' = [ms EXCEPT ![m].mem = 7 * @ + 1 + (IF Bug = "symbol" /\ cache' # s.p THEN 50 ELSE 0) + Effect(seg[use[m]].q, seg[use[m]].acc), ![m].limit = IF o.op = "run" THEN 2 ELSE IF Bug = "limit" THEN one ELSE @, ![m].last = "ok"]
                 /\ one' = IF o.op = "run" THEN 2 ELSE one
    [] o.op = "stop" -> ms' = [ms EXCEPT ![m].limit = 0, ![m].last = "ok"] /\ one' = 0 /\ UNCHANGED <<seg, use, cache>>
    [] OTHER -> ms' = [ms EXCEPT ![m].mem = 7 * @ + 3, ![m].last = o.op] /\ UNCHANGED <<seg, use, one, cache>>
Args(op) == IF op \in {"create", "reload"} THEN Programs ELSE {1}
Next == /\ Len(path) < Depth
        /\ \E m \in Ids, op \in Ops : \E n \in Args(op) :
             /\ (op = "create") = ~ms[m].live /\ (\A k \in 0..(m - 1) : hist[k].last # "none")
             /\ LET o == [op |-> op, n |-> n]  e == [op |-> op, m |-> m, n |-> n] IN
                /\ Built(m, o) /\ hist' = [hist EXCEPT ![m] = Alone(@, o)] /\ path' = Append(path, e)
                /\ IF Emit /\ Len(path') = Depth THEN PrintT("PATH " \o ToJson(path')) ELSE TRUE
\* what a host can see of a machine
See(s) == [live |-> s.live, mem |-> s.mem, limit |-> s.limit, ev |-> s.ev, last |-> s.last]
Apart == \A m \in Ids : See(ms[m]) = See(hist[m])
View == <<ms, seg, use, one, cache, hist, Len(path)>>
=============================================================================
