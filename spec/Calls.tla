-------------------------------- MODULE Calls --------------------------------
(* Bounded calls of guest functions. A function is the sequence of its      *)
(* events with the number of instructions executed up to each: taken        *)
(* transfers of control (the last one returns), hooks (system calls whose   *)
(* handler may call the guest again), stop requests and faults. A call with *)
(* budget B ends at the first transfer at or after B instructions of its    *)
(* own with a timeout, or else as the function does.                        *)
EXTENDS Integers, Sequences
Inf == 1000000000
Ev(k, c) == [k |-> k, c |-> c]
\* prologue 3, body 6 ending in the loop branch, then two instructions
WorkEvents(n) == [i \in 1..(n - 1) |-> Ev("transfer", 3 + 6 * i)] \o <<Ev("return", 6 * n + 5)>>
\* prologue 3, body 11 with the hook in fourth place, then three instructions
HookedEvents(n) == [i \in 1..(2 * n - 1) |-> IF i % 2 = 1 THEN Ev("hook", 3 + 11 * ((i - 1) \div 2) + 4) ELSE Ev("transfer", 3 + 11 * (i \div 2))] \o <<Ev("return", 11 * n + 6)>>
FaultyEvents(n) == [i \in 1..(n - 1) |-> Ev("transfer", 2 * i)] \o <<Ev("fault", 2 * n + 1)>>
StopperEvents == <<Ev("stop", 3)>>
DeepEvents(n) == [i \in 1..n |-> Ev("transfer", 5 * i)] \o <<Ev("transfer", 5 * n + 1)>> \o [j \in 1..n |-> Ev("transfer", 5 * n + 2 + 4 * (j - 1))] \o <<Ev("return", 9 * n + 2)>>
\* the endless loop transfers at every second instruction: enough of it to outlast the budget
ForeverEvents(b) == [i \in 1..((b \div 2) + 1) |-> Ev("transfer", 2 * i)]
Events(f, n, b) == CASE f = "work" -> WorkEvents(n) [] f = "hooked" -> HookedEvents(n) [] f = "faulty" -> FaultyEvents(n)
                     [] f = "stopper" -> StopperEvents [] f = "deep" -> DeepEvents(n) [] f = "forever" -> ForeverEvents(b)
RECURSIVE WorkSum(_, _)
WorkSum(i, s) == IF i = 0 THEN s ELSE WorkSum(i - 1, (3 * s + i) % 4096)
Value(f, n, acc) == CASE f = "work" -> WorkSum(n, 0) [] f = "hooked" -> acc [] f = "stopper" -> n + 7 [] f = "deep" -> 2 * n [] OTHER -> 0
HookValue(acc, x) == (3 * acc + x) % 4096
NothingX == 5
CaughtX == 9
NoItem == [op |-> "none"]
\* "limit": the call's own budget ran out, which it raises as a timeout unless asked not to; a timeout raised further in passes through
Raised(out) == IF out = "limit" THEN "timeout" ELSE out
Done(out, val, script, obs, log) == [out |-> out, val |-> val, script |-> script, obs |-> obs, log |-> log]
\* script: what the coming hooks do; obs: what the coming nested calls were seen to leave in the result register,
\* which matters only where that is left open (a timeout that was asked not to raise); log: how each nested call ended, in order of starting
RECURSIVE Eval(_, _, _, _, _), Steps(_, _, _, _, _, _, _, _, _)
Steps(evs, i, f, n, b, acc, script, obs, log) ==
  IF i > Len(evs) THEN Done("limit", 0, script, obs, log)
  ELSE LET e == evs[i]  more(a, s, o, g) == Steps(evs, i + 1, f, n, b, a, s, o, g) IN
  CASE e.k = "transfer" -> IF e.c >= b THEN Done("limit", 0, script, obs, log) ELSE more(acc, script, obs, log)
    [] e.k = "return" -> IF e.c >= b THEN Done("limit", 0, script, obs, log) ELSE Done("ok", Value(f, n, acc), script, obs, log)
    [] e.k = "fault" -> Done("prot", 0, script, obs, log)
    [] e.k = "stop" -> Done("ok", Value(f, n, acc), script, obs, log)
    [] OTHER ->
       LET it == IF script = <<>> THEN NoItem ELSE Head(script)  rest == IF script = <<>> THEN <<>> ELSE Tail(script) IN
       IF it.op = "none" THEN more(HookValue(acc, NothingX), rest, obs, log)
       ELSE LET seen == IF obs = <<>> THEN 0 ELSE Head(obs)  k == Len(log) + 1
                r == Eval(it, rest, IF obs = <<>> THEN <<>> ELSE Tail(obs), Append(log, "?"), 0)
                g == [r.log EXCEPT ![k] = IF r.out = "limit" /\ ~it.thr THEN "open" ELSE Raised(r.out)] IN
            IF r.out = "ok" THEN more(HookValue(acc, r.val), r.script, r.obs, g)
            ELSE IF r.out = "limit" /\ ~it.thr THEN more(HookValue(acc, seen), r.script, r.obs, g)
            ELSE IF it.caught THEN more(HookValue(acc, CaughtX), r.script, r.obs, g)
            ELSE Done(Raised(r.out), 0, r.script, r.obs, g)
Eval(call, script, obs, log, acc) == Steps(Events(call.f, call.n, call.B), 1, call.f, call.n, call.B, acc, script, obs, log)
Call(call, script, obs) == LET r == Eval(call, script, obs, <<>>, 0) IN [r EXCEPT !.out = Raised(@)]
=============================================================================
