------------------------------- MODULE Threads -------------------------------
(* Cooperative guest threads: one runs, the others are ready or blocked on a *)
(* word. Every operation is a function from a state, the caller's context   *)
(* and a choice (who runs next, who is woken, which identifier is given) to *)
(* the set of allowed outcomes; a choice that is not allowed yields none.   *)
(*                                                                          *)
(* state  cur      the running thread                                       *)
(*        ready    thread -> [ctx, ret, since]   continues with ctx and ret *)
(*        blocked  thread -> [ctx, ret, word, mask]                         *)
(*        clear    thread -> address of the word cleared at exit, or None   *)
(*        mem      readable word address -> value;  rw: the writable ones   *)
(*        tick     number of scheduling opportunities so far                *)
(*        peak     largest number of threads so far                        *)
(*        act      signal -> [h, alt]: place of its handler, and whether it *)
(*                 asks for the alternate stack; no entry: default action   *)
(*        alt      thread -> top of its alternate stack, if it has one      *)
EXTENDS Integers, FiniteSets, TLC
CONSTANTS Child(_, _, _), Enter(_, _, _), MaxThreads
None == -1
EAGAIN == -11
EINVAL == -22
ENOSPC == -28
ESRCH == -3
ENOSYS == -38
Main == 0
MinI(a, b) == IF a < b THEN a ELSE b
Drop(f, t) == [x \in DOMAIN f \ {t} |-> f[x]]
Put(f, t, v) == [x \in DOMAIN f \cup {t} |-> IF x = t THEN v ELSE f[x]]
Alive(s) == {s.cur} \cup DOMAIN s.ready \cup DOMAIN s.blocked
RECURSIVE BitAnd(_, _)
BitAnd(a, b) == IF a = 0 \/ b = 0 THEN 0 ELSE (IF a % 2 = 1 /\ b % 2 = 1 THEN 1 ELSE 0) + 2 * BitAnd(a \div 2, b \div 2)
AllBits == 1048575   \* masks are 20 bits wide here
Start(ctx, mem, rw) == [cur |-> Main, ready |-> [t \in {} |-> 0], blocked |-> [t \in {} |-> 0], clear |-> (Main :> None), mem |-> mem, rw |-> rw, tick |-> 0, peak |-> 1, act |-> [g \in {} |-> 0], alt |-> [t \in {} |-> 0]]

Goon(s, ctx, r) == {[s |-> s, ctx |-> ctx, ret |-> r, out |-> "ok", stop |-> FALSE]}
Fault(s, ctx, r, kind) == {[s |-> s, ctx |-> ctx, ret |-> r, out |-> kind, stop |-> FALSE]}
Tick(s) == [s EXCEPT !.tick = @ + 1]
MakeReady(s, t, ctx, r) == [s EXCEPT !.ready = Put(@, t, [ctx |-> ctx, ret |-> r, since |-> s.tick])]
Dispatch(s, n) == IF n \notin DOMAIN s.ready THEN {}
                  ELSE {[s |-> [s EXCEPT !.cur = n, !.ready = Drop(@, n)], ctx |-> s.ready[n].ctx, ret |-> s.ready[n].ret, out |-> "ok", stop |-> FALSE]}
\* the caller stays runnable; it continues with r, now or when it is chosen again
Yield(s, ctx, r, ch) == IF ch.next = s.cur THEN Goon(Tick(s), ctx, r) ELSE Dispatch(MakeReady(Tick(s), s.cur, ctx, r), ch.next)
Sleep(s, ctx, r, word, mask, ch) == Dispatch([Tick(s) EXCEPT !.blocked = Put(@, s.cur, [ctx |-> ctx, ret |-> r, word |-> word, mask |-> mask])], ch.next)

Wait(s, ctx, r0, at, val, mask, ch) ==
  IF at \notin DOMAIN s.mem THEN Fault(s, ctx, r0, "prot")
  ELSE IF s.mem[at] # val THEN Yield(s, ctx, EAGAIN, ch)
  ELSE IF DOMAIN s.ready = {} THEN \* nobody could ever wake the caller: it returns as if woken, the word may be released
       Goon(s, ctx, 0) \cup (IF at \in s.rw THEN Goon([s EXCEPT !.mem[at] = 0], ctx, 0) ELSE Fault(s, ctx, r0, "prot"))
  ELSE Sleep(s, ctx, 0, at, mask, ch)

Matching(s, at, mask) == {t \in DOMAIN s.blocked : s.blocked[t].word = at /\ BitAnd(s.blocked[t].mask, mask) # 0}
Awaken(s, W) == [s EXCEPT !.blocked = [t \in DOMAIN @ \ W |-> @[t]],
                          !.ready = [t \in DOMAIN @ \cup W |-> IF t \in W THEN [ctx |-> s.blocked[t].ctx, ret |-> s.blocked[t].ret, since |-> s.tick] ELSE @[t]]]
Wakes(s, at, n, mask, W) == W \subseteq Matching(s, at, mask) /\ Cardinality(W) = MinI(n, Cardinality(Matching(s, at, mask)))
Wake(s, ctx, at, n, mask, ch) == IF Wakes(s, at, n, mask, ch.woken) THEN Goon(Awaken(s, ch.woken), ctx, Cardinality(ch.woken)) ELSE {}

\* thread t ends: its word is cleared and one waiter released; {} if the choice is wrong
Leave(s, t, ch) ==
  LET at == s.clear[t]
      gone(x) == [x EXCEPT !.ready = Drop(@, t), !.blocked = Drop(@, t), !.clear = Drop(@, t), !.alt = Drop(@, t)]
  IN IF at = None \/ at \notin s.rw THEN (IF ch.woken = {} THEN {gone(s)} ELSE {})
     ELSE {gone(Awaken([s EXCEPT !.mem[at] = 0], W)) : W \in {X \in {ch.woken, ch.woken \cup {t}} : Wakes(s, at, 1, AllBits, X)}}
\* an end that cannot clear its word may be refused instead
Unwritable(s, t, ctx, r0) == IF s.clear[t] # None /\ s.clear[t] \notin s.rw THEN Fault(s, ctx, r0, "prot") ELSE {}
Finish(s, ctx, r) == {[s |-> s, ctx |-> ctx, ret |-> r, out |-> "ok", stop |-> TRUE]}
\* the process ends with its main thread; nothing is left to schedule
Halt(s, t, ctx, r, ch) == Finish(s, ctx, r) \cup (IF s.clear[t] \in s.rw THEN Finish([s EXCEPT !.mem[s.clear[t]] = 0], ctx, r) ELSE {})
Exit(s, ctx, r0, ch) ==
  Unwritable(s, s.cur, ctx, r0) \cup
  IF s.cur = Main THEN Halt(s, Main, ctx, r0, ch)
  ELSE UNION {IF DOMAIN x.ready # {} THEN Dispatch(Tick(x), ch.next)
              ELSE \* all others are blocked: one of them returns spuriously
                   IF ch.next \in DOMAIN x.blocked THEN Dispatch(Awaken(x, {ch.next}), ch.next) ELSE {}
             : x \in Leave(s, s.cur, ch)}
Ignored == -2
Signal(sig) == sig \in 1..64
Kill(s, ctx, r0, t, sig, ch) ==
  IF t \notin Alive(s) THEN Goon(s, ctx, ESRCH) \cup (IF sig = 0 \/ Signal(sig) THEN {} ELSE Goon(s, ctx, EINVAL) \cup Fault(s, ctx, r0, "invalid"))
  ELSE IF sig = 0 THEN Goon(s, ctx, 0)
  ELSE IF ~Signal(sig) THEN Goon(s, ctx, EINVAL) \cup Fault(s, ctx, r0, "invalid")
  ELSE IF sig \in DOMAIN s.act /\ s.act[sig].h = Ignored THEN Goon(s, ctx, 0)
  ELSE IF sig \in DOMAIN s.act THEN \* its own handler; another thread's is left open
       (IF t = s.cur THEN Goon(s, Enter(ctx, s.act[sig].h, IF s.act[sig].alt /\ t \in DOMAIN s.alt THEN s.alt[t] ELSE None), sig) ELSE {})
  ELSE IF t = s.cur THEN Exit(s, ctx, r0, ch)
  ELSE Unwritable(s, t, ctx, r0) \cup
       (IF t = Main THEN Halt(s, t, ctx, r0, ch) ELSE UNION {Goon(x, ctx, 0) : x \in Leave(s, t, ch)})
SetTid(s, ctx, at) == Goon([s EXCEPT !.clear[s.cur] = at], ctx, s.cur)
\* signals
Action(s, ctx, sig, h, alt) == Goon([s EXCEPT !.act = IF h = None THEN Drop(@, sig) ELSE Put(@, sig, [h |-> h, alt |-> alt])], ctx, 0)
AltStack(s, ctx, top) == Goon([s EXCEPT !.alt = IF top = None THEN Drop(@, s.cur) ELSE Put(@, s.cur, top)], ctx, 0)
GetTid(s, ctx) == Goon(s, ctx, s.cur)

\* fl: subset of {"ptid", "ctid", "clear"}
Clone(s, ctx, r0, fl, stack, tls, ptid, ctid, ch) ==
  IF Cardinality(Alive(s)) >= MaxThreads THEN Fault(s, ctx, r0, "invalid") \cup Goon(s, ctx, EAGAIN)
  ELSE IF ("ptid" \in fl /\ ptid \notin s.rw) \/ ("ctid" \in fl /\ ctid \notin s.rw)
  THEN Fault(s, ctx, r0, "prot") \cup (IF "ctid" \in fl /\ ctid \in s.rw THEN Fault([s EXCEPT !.mem[ctid] = ch.tid], ctx, r0, "prot") ELSE {})
                                 \cup (IF "ptid" \in fl /\ ptid \in s.rw THEN Fault([s EXCEPT !.mem[ptid] = ch.tid], ctx, r0, "prot") ELSE {})
  ELSE IF ch.tid \in Alive(s) \/ ch.tid <= 0 THEN {}
  ELSE LET m1 == IF "ctid" \in fl THEN [s.mem EXCEPT ![ctid] = ch.tid] ELSE s.mem
           m2 == IF "ptid" \in fl THEN [m1 EXCEPT ![ptid] = ch.tid] ELSE m1
           s1 == [s EXCEPT !.mem = m2, !.clear = Put(@, ch.tid, IF "clear" \in fl THEN ctid ELSE None),
                           !.peak = IF Cardinality(Alive(s)) + 1 > @ THEN Cardinality(Alive(s)) + 1 ELSE @]
           kid == Child(ctx, stack, tls)
       IN IF ch.next = ch.tid THEN Goon([MakeReady(s1, s.cur, ctx, ch.tid) EXCEPT !.cur = ch.tid], kid, 0)
          ELSE IF ch.next = s.cur THEN Goon(MakeReady(s1, ch.tid, kid, 0), ctx, ch.tid) ELSE {}

\* what a host-made scheduler can ask for
YieldTo(s, ctx, t, ch) == IF t \in DOMAIN s.ready THEN Dispatch(MakeReady(s, s.cur, ctx, 0), t) ELSE Goon(s, ctx, -1)
Unblock(s, ctx, t) == IF t \in DOMAIN s.blocked THEN Goon(Awaken(s, {t}), ctx, 0) ELSE Goon(s, ctx, 0)
Block(s, ctx, word, mask, ch) == IF DOMAIN s.ready = {} THEN Goon(s, ctx, -1) ELSE Sleep(s, ctx, 0, word, mask, ch)

\* no ready thread is passed over for long
Fair(s) == \A t \in DOMAIN s.ready : s.tick - s.ready[t].since <= 2 * s.peak + 2
Partition(s) == /\ DOMAIN s.ready \cap DOMAIN s.blocked = {} /\ s.cur \notin DOMAIN s.ready \cup DOMAIN s.blocked
                /\ Alive(s) = DOMAIN s.clear
=============================================================================
