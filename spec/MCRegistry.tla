----------------------------- MODULE MCRegistry -----------------------------
(* The registry of shared decoded code, step by step: threads that each     *)
(* create a machine for a program, run it, perhaps patch it, and release    *)
(* it, with the registry's lock, the locks of its entries, reference counts *)
(* and removal as separate steps. Programs 1 and 2 have the same key        *)
(* (address and checksum) and different code; 3 has another key.            *)
(* Bug names a broken variant; the model must fail for each but "none".     *)
EXTENDS Integers, FiniteSets, Sequences, TLC
CONSTANTS Threads, Rounds, Bug
Programs == {1, 2, 3}
Key(p) == IF p = 3 THEN 2 ELSE 1
Keys == {1, 2}
None == 0
VARIABLES reg, mlock, elock, seg, pc, held, prog, own, mine, rounds
vars == <<reg, mlock, elock, seg, pc, held, prog, own, mine, rounds>>
\* seg: id -> [code, ready, refs]; refs are threads and "reg"
Init == /\ reg = [k \in Keys |-> {}] /\ mlock = None /\ elock = [k \in Keys |-> None] /\ seg = <<>>
        /\ pc = [t \in Threads |-> "idle"] /\ held = [t \in Threads |-> None] /\ prog = [t \in Threads |-> 1] /\ own = [t \in Threads |-> FALSE] /\ mine = [t \in Threads |-> None] /\ rounds = [t \in Threads |-> 0]
Fresh == CHOOSE i \in 1..(Cardinality(DOMAIN seg) + 1) : i \notin DOMAIN seg
Go(t, p) == pc' = [pc EXCEPT ![t] = p]
Unref(s, i, r) == IF i \notin DOMAIN s THEN s ELSE IF s[i].refs \subseteq {r} THEN [j \in DOMAIN s \ {i} |-> s[j]] ELSE [s EXCEPT ![i].refs = @ \ {r}]
Choose(t) == /\ pc[t] = "idle" /\ rounds[t] < Rounds /\ \E p \in Programs : prog' = [prog EXCEPT ![t] = p]
             /\ rounds' = [rounds EXCEPT ![t] = @ + 1] /\ own' = [own EXCEPT ![t] = FALSE] /\ mine' = [mine EXCEPT ![t] = None] /\ Go(t, "entry") /\ UNCHANGED <<reg, mlock, elock, seg, held>>
\* the entry is looked up under the registry's lock, then locked itself
Entry(t) == pc[t] = "entry" /\ mlock = None /\ Go(t, "lock") /\ UNCHANGED <<reg, mlock, elock, seg, held, prog, own, mine, rounds>>
Lock(t) == LET k == Key(prog[t]) IN
           /\ pc[t] = "lock" /\ (Bug = "unlocked" \/ elock[k] = None) /\ elock' = IF Bug = "unlocked" THEN elock ELSE [elock EXCEPT ![k] = t]
           /\ Go(t, "find") /\ UNCHANGED <<reg, mlock, seg, held, prog, own, mine, rounds>>
Unlock(k) == elock' = [elock EXCEPT ![k] = None]
Matches(p) == {i \in reg[Key(p)] : Bug = "key" \/ seg[i].code = p}
Find(t) == LET p == prog[t] IN
           /\ pc[t] = "find" /\ UNCHANGED <<mlock, prog, own, mine, rounds>>
           /\ IF Matches(p) # {} THEN LET i == CHOOSE i \in Matches(p) : TRUE IN held' = [held EXCEPT ![t] = i] /\ seg' = [seg EXCEPT ![i].refs = @ \cup {t}] /\ Unlock(Key(p)) /\ Go(t, "run") /\ UNCHANGED reg
              ELSE LET i == Fresh IN /\ held' = [held EXCEPT ![t] = i] /\ Go(t, "decode") /\ UNCHANGED elock
                                     /\ seg' = (i :> [code |-> p, ready |-> FALSE, refs |-> IF Bug = "early" THEN {t, "reg"} ELSE {t}]) @@ seg
                                     /\ reg' = IF Bug = "early" THEN [reg EXCEPT ![Key(p)] = @ \cup {i}] ELSE reg
\* with the early variant the entry is released while the code is still being decoded
Decode(t) == /\ pc[t] = "decode" /\ Go(t, "insert") /\ seg' = [seg EXCEPT ![held[t]].ready = TRUE] /\ UNCHANGED <<reg, mlock, held, prog, own, mine, rounds, elock>>
Early(t) == Bug = "early" /\ pc[t] = "decode" /\ elock[Key(prog[t])] = t /\ Unlock(Key(prog[t])) /\ UNCHANGED <<reg, mlock, seg, pc, held, prog, own, mine, rounds>>
Insert(t) == LET k == Key(prog[t]) IN
             /\ pc[t] = "insert" /\ reg' = [reg EXCEPT ![k] = @ \cup {held[t]}] /\ seg' = [seg EXCEPT ![held[t]].refs = @ \cup {"reg"}]
             /\ elock' = (IF elock[k] = t THEN [elock EXCEPT ![k] = None] ELSE elock) /\ Go(t, "run") /\ UNCHANGED <<mlock, held, prog, own, mine, rounds>>
\* patching runs on a copy of one's own, which keeps the original
Patch(t) == /\ pc[t] = "run" /\ ~own[t] /\ own' = [own EXCEPT ![t] = TRUE] /\ UNCHANGED <<reg, mlock, elock, pc, held, prog, rounds>>
            /\ IF Bug = "patch" THEN seg' = [seg EXCEPT ![held[t]].code = 9] /\ UNCHANGED mine
               ELSE LET i == Fresh IN mine' = [mine EXCEPT ![t] = i] /\ seg' = (i :> [code |-> 9, ready |-> TRUE, refs |-> {t}]) @@ seg
Drop(t) == /\ pc[t] = "run" /\ Go(t, IF Bug = "keep" THEN "idle" ELSE "remove") /\ held' = [held EXCEPT ![t] = None] /\ mine' = [mine EXCEPT ![t] = None]
           /\ seg' = Unref(Unref(seg, held[t], t), mine[t], t) /\ UNCHANGED <<reg, mlock, elock, prog, own, rounds>>
\* removal takes both locks
Remove(t) == LET k == Key(prog[t])  dead == {i \in reg[k] : Bug = "steal" \/ seg[i].refs = {"reg"}} IN
             /\ pc[t] = "remove" /\ mlock = None /\ elock[k] = None /\ Go(t, "idle")
             /\ reg' = [reg EXCEPT ![k] = @ \ dead]
             /\ seg' = [i \in {j \in DOMAIN seg : j \notin dead \/ seg[j].refs # {"reg"}} |-> IF i \in dead THEN [seg[i] EXCEPT !.refs = @ \ {"reg"}] ELSE seg[i]]
             /\ UNCHANGED <<mlock, elock, held, prog, own, mine, rounds>>
Next == \E t \in Threads : Choose(t) \/ Entry(t) \/ Lock(t) \/ Find(t) \/ Decode(t) \/ Early(t) \/ Insert(t) \/ Patch(t) \/ Drop(t) \/ Remove(t)
Running(t) == pc[t] = "run"
Code(t) == IF own[t] /\ mine[t] # None THEN mine[t] ELSE held[t]
RunsOwn == \A t \in Threads : Running(t) => Code(t) \in DOMAIN seg /\ seg[Code(t)].ready /\ seg[Code(t)].code = IF own[t] THEN 9 ELSE prog[t]
Shares == \A t, u \in Threads : Running(t) /\ Running(u) /\ ~own[t] /\ ~own[u] => (held[t] = held[u]) = (prog[t] = prog[u])
Forgotten == (\A t \in Threads : pc[t] = "idle") => reg = [k \in Keys |-> {}] /\ DOMAIN seg = {}
Counted == \A i \in DOMAIN seg : ("reg" \in seg[i].refs) = (\E k \in Keys : i \in reg[k])
Live == \A t \in Threads : pc[t] # "idle" => ENABLED Next
Sym == Permutations(Threads)
=============================================================================
