------------------------------- MODULE MCCalls -------------------------------
(* Preemptive calls as an implementation makes them: one machine with one   *)
(* register state, one instruction counter and one limit; a call made by a  *)
(* handler saves them, runs with its own, and restores them however it ends.*)
(* What each hook does is chosen as it comes, up to MaxItems calls; every   *)
(* complete run is compared with Calls and its script printed for the       *)
(* driver. Bug breaks the restoring in one way or another (the model must   *)
(* then fail: "none" is the specification).                                 *)
EXTENDS Calls, TLC, Json
CONSTANTS MaxItems, Rich, Emit, Bug
VARIABLES stk, regs, counter, limit, script, log, out, val, top, nitems
vars == <<stk, regs, counter, limit, script, log, out, val, top, nitems>>
C(f, n, b) == [op |-> "call", f |-> f, n |-> n, B |-> b]
Tops == {[op |-> "top", f |-> "hooked", n |-> n, B |-> b] : n \in {1, 2}, b \in {Inf, 14, 15, 28, 29}} \cup {[op |-> "top", f |-> "hooked", n |-> 3, B |-> Inf]}
Few == {C("work", 2, 17), C("work", 2, 18), C("hooked", 1, 17), C("hooked", 2, 100), C("hooked", 2, 14), C("forever", 1, 3), C("faulty", 1, 9), C("stopper", 1, 1), C("deep", 2, 20)}
Many == Few \cup {C("work", 2, 9), C("work", 2, 10), C("hooked", 1, 18), C("hooked", 2, 28), C("hooked", 2, 29), C("faulty", 2, 2), C("faulty", 2, 3), C("deep", 2, 15), C("deep", 2, 21), C("stopper", 5, 60)}
How == {[thr |-> TRUE, caught |-> TRUE], [thr |-> TRUE, caught |-> FALSE], [thr |-> FALSE, caught |-> FALSE]}
Items == {NoItem} \cup {c @@ h : c \in IF Rich THEN Many ELSE Few, h \in How}
Frame(c) == [call |-> c, evs |-> Events(c.f, c.n, c.B), i |-> 1, at |-> 0, k |-> Len(log) + 1]
NoSave == [regs |-> 0, counter |-> 0, limit |-> 0]
Init == /\ top \in Tops /\ stk = <<[fr |-> [call |-> top, evs |-> Events(top.f, top.n, top.B), i |-> 1, at |-> 0, k |-> 0], save |-> NoSave]>>
        /\ regs = 0 /\ counter = 0 /\ limit = top.B /\ script = <<>> /\ log = <<>> /\ out = "" /\ val = 0 /\ nitems = 0
Fr == stk[Len(stk)].fr
Finished == out # "" /\ Len(stk) = 1
Advance(st) == [st EXCEPT ![Len(st)].fr.i = @ + 1, ![Len(st)].fr.at = Fr.evs[Fr.i].c]
\* one event of the running function
Run == /\ out = ""
       /\ LET e == Fr.evs[Fr.i]  c == counter + (e.c - Fr.at) IN
          /\ counter' = c
          /\ CASE e.k \in {"transfer", "return"} ->
                    IF c >= limit THEN out' = "limit" /\ UNCHANGED <<stk, regs, limit, script, log, val, nitems>>
                    ELSE IF e.k = "return" THEN out' = "ok" /\ val' = Value(Fr.call.f, Fr.call.n, regs) /\ UNCHANGED <<stk, regs, limit, script, log, nitems>>
                    ELSE stk' = Advance(stk) /\ UNCHANGED <<regs, limit, script, log, out, val, nitems>>
               [] e.k = "fault" -> out' = "prot" /\ UNCHANGED <<stk, regs, limit, script, log, val, nitems>>
               [] e.k = "stop" -> out' = "ok" /\ val' = Value(Fr.call.f, Fr.call.n, regs) /\ UNCHANGED <<stk, regs, limit, script, log, nitems>>
               [] OTHER -> FALSE
       /\ UNCHANGED top
Hook == /\ out = "" /\ Fr.evs[Fr.i].k = "hook" /\ UNCHANGED <<top, val, out>>
        /\ \E it \in IF nitems < MaxItems THEN Items ELSE {NoItem} :
             LET c == counter + (Fr.evs[Fr.i].c - Fr.at) IN
             /\ script' = Append(script, it)
             /\ IF it.op = "none" THEN regs' = HookValue(regs, NothingX) /\ counter' = c /\ stk' = Advance(stk) /\ UNCHANGED <<limit, log, nitems>>
                ELSE /\ nitems' = nitems + 1 /\ log' = Append(log, "?")
                     /\ stk' = Append(Advance(stk), [fr |-> Frame(it), save |-> [regs |-> regs, counter |-> c, limit |-> limit]])
                     /\ counter' = 0 /\ limit' = it.B /\ regs' = 0
\* a nested call ends: the handler goes on with the restored state, or the error goes on through it
End == /\ out # "" /\ Len(stk) > 1
       /\ LET f == stk[Len(stk)]  it == f.fr.call  s == f.save  lazy == Bug = "exception" /\ out = "prot" IN
          /\ stk' = SubSeq(stk, 1, Len(stk) - 1)
          /\ log' = [log EXCEPT ![f.fr.k] = IF out = "limit" /\ ~it.thr THEN "open" ELSE Raised(out)]
          /\ counter' = IF Bug = "counter" \/ lazy THEN counter ELSE s.counter
          /\ limit' = IF Bug = "limit" \/ lazy THEN limit ELSE s.limit
          /\ LET back == IF Bug = "regs" \/ lazy THEN regs ELSE s.regs IN
             IF out = "ok" THEN regs' = HookValue(back, val) /\ out' = ""
             ELSE IF out = "limit" /\ ~it.thr THEN regs' = HookValue(back, 0) /\ out' = ""
             ELSE IF it.caught THEN regs' = HookValue(back, CaughtX) /\ out' = ""
             ELSE regs' = back /\ out' = Raised(out)
          /\ UNCHANGED <<script, val, top, nitems>>
Stop == Finished /\ (Emit => PrintT("PATH " \o ToJson(<<top>> \o [i \in DOMAIN script |-> IF script[i].op = "none" THEN script[i] ELSE [script[i] EXCEPT !.thr = IF @ THEN 1 ELSE 0, !.caught = IF @ THEN 1 ELSE 0]] \o <<[op |-> "end"]>>))) /\ FALSE /\ UNCHANGED vars
Next == Run \/ Hook \/ End \/ Stop
\* whoever is interrupted stays as it was: its save is that of its last moment, whatever runs above
Refines == Finished => LET w == Call(top, script, <<>>) IN Raised(out) = w.out /\ (out = "ok" => val = w.val) /\ log = w.log /\ w.script = <<>>
Bounded == Len(stk) <= MaxItems + 1
=============================================================================
