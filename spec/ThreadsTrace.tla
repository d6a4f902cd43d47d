---------------------------- MODULE ThreadsTrace ----------------------------
(* Validates recorded histories of the real scheduler against Threads.tla.  *)
(* A context is all registers but the result register, pc and vector state. *)
EXTENDS Threads, TraceLib
VARIABLES l, s, lost
vars == <<l, s, lost>>
\* registers are listed from r1: tp is r2, sp is r3, a0 is r4
TraceChild(c, stack, tls) == [c EXCEPT !.r[3] = stack, !.r[2] = IF tls = 0 THEN @ ELSE tls]
TraceEnter(c, h, sp) == [c EXCEPT !.pc = h, !.r[3] = IF sp = None THEN @ ELSE sp]
SetOf(q) == {q[i] : i \in DOMAIN q}
FnOf(q) == [a \in {p[1] : p \in SetOf(q)} |-> (CHOOSE p \in SetOf(q) : p[1] = a)[2]]
Init == l = 1 /\ Counters /\ s = Start(0, [w \in {} |-> 0], {}) /\ lost = TRUE
Ev == Trace[l]
New == /\ l <= Len(Trace) /\ Ev.e = "new" /\ l' = l + 1 /\ lost' = FALSE
       /\ LET m == FnOf(Ev.words) IN s' = Start(0, m, {w \in DOMAIN m : w >= Ev.rw})
Skip == /\ l <= Len(Trace) /\ lost /\ Ev.e # "new" /\ l' = l + 1 /\ UNCHANGED <<s, lost>>
Store == /\ l <= Len(Trace) /\ ~lost /\ Ev.e = "store" /\ l' = l + 1 /\ UNCHANGED lost /\ s' = [s EXCEPT !.mem[Ev.at] = Ev.v]
Ctx(c) == [c EXCEPT !.r[4] = 0]
Mask(ev) == IF ev.bits = 1 THEN ev.mask ELSE AllBits
Fl(ev) == (IF ev.fp = 1 THEN {"ptid"} ELSE {}) \cup (IF ev.fc = 1 THEN {"ctid"} ELSE {}) \cup (IF ev.clear = 1 THEN {"clear"} ELSE {})
At(a) == IF a = 0 THEN None ELSE a
Outcomes(ev, ch) ==
  LET c == Ctx(ev.before)  r0 == ev.before.r[4] IN
  CASE ev.op = "yield" -> Yield(s, c, 0, ch)  [] ev.op = "gettid" -> GetTid(s, c)  [] ev.op = "exit" -> Exit(s, c, r0, ch)
    [] ev.op = "exitgroup" -> Finish(s, c, r0)
    [] ev.op = "wait" -> Wait(s, c, r0, ev.at, ev.val, Mask(ev), ch)
    [] ev.op = "wake" -> Wake(s, c, ev.at, ev.n, Mask(ev), ch)
    [] ev.op = "settid" -> SetTid(s, c, At(ev.at))
    [] ev.op = "kill" -> Kill(s, c, r0, ev.tid, ev.sig, ch)
    [] ev.op = "clone" -> IF ev.short = 1 THEN Goon(s, c, ENOSPC) \cup Goon(s, c, EINVAL)
                          ELSE Clone(s, c, r0, Fl(ev), ev.stack, ev.tls, ev.ptid, ev.ctid, ch)
    [] ev.op = "yieldto" -> YieldTo(s, c, ev.tid, ch)  [] ev.op = "unblock" -> Unblock(s, c, ev.tid)
    [] ev.op = "action" -> Action(s, c, ev.sig, ev.h, ev.alt = 1)
    [] ev.op = "altstack" -> AltStack(s, c, IF ev.sz = 0 \/ ev.off = 1 THEN None ELSE ev.sp + ev.sz)
    [] ev.op = "robust" -> Goon(s, c, 0)
    [] ev.op = "badfutex" -> Goon(s, c, EINVAL) \cup Goon(s, c, ENOSYS)
    [] ev.op = "block" -> Block(s, c, ev.at, ev.mask, ch)
\* the choices the observation could stand for
Choices(ev) ==
  LET freed == {t \in DOMAIN s.blocked : t \notin SetOf(ev.blocked)}
      new == SetOf(ev.alive) \ Alive(s)
  IN [next : {ev.cur}, woken : {freed \cap SetOf(ev.alive), freed \cap SetOf(ev.ready), {}}, tid : IF new = {} THEN {-5} \cup {p[2] : p \in SetOf(ev.words)} ELSE new]
Wrong(o, ev) ==
  LET mem == [w \in DOMAIN s.mem |-> IF \E p \in SetOf(ev.words) : p[1] = w THEN (CHOOSE p \in SetOf(ev.words) : p[1] = w)[2] ELSE s.mem[w]] IN
  IF ev.out # o.out THEN "outcome"
  ELSE IF ev.stray # 0 THEN "stray bytes"
  ELSE IF mem # o.s.mem THEN "memory"
  ELSE IF ev.stop # (IF o.stop THEN 1 ELSE 0) THEN "stopped"
  ELSE IF o.stop THEN ""
  ELSE IF ev.cur # o.s.cur THEN "running thread"
  ELSE IF SetOf(ev.alive) # Alive(o.s) THEN "live threads"
  ELSE IF SetOf(ev.ready) # DOMAIN o.s.ready \/ Len(ev.ready) # Cardinality(DOMAIN o.s.ready) THEN "ready threads"
  ELSE IF SetOf(ev.blocked) # DOMAIN o.s.blocked \/ Len(ev.blocked) # Cardinality(DOMAIN o.s.blocked) THEN "blocked threads"
  ELSE IF ev.after.r[4] # o.ret THEN "result"
  ELSE IF Ctx(ev.after).r # o.ctx.r THEN "registers"
  ELSE IF ev.after.fp # o.ctx.fp THEN "vector registers"
  ELSE IF ev.out = "ok" /\ ev.after.pc # o.ctx.pc THEN "continuation" ELSE ""
DoOp == /\ l <= Len(Trace) /\ ~lost /\ Ev.e = "op" /\ l' = l + 1
        /\ LET outs == UNION {Outcomes(Ev, ch) : ch \in Choices(Ev)}
               fit == {o \in outs : Wrong(o, Ev) = ""}
           IN IF fit = {} THEN /\ Mismatch(l, IF outs = {} THEN "choice" ELSE CHOOSE w \in {Wrong(o, Ev) : o \in outs} : TRUE,
                                           [ev |-> Ev, cur |-> s.cur, ready |-> DOMAIN s.ready, blocked |-> [t \in DOMAIN s.blocked |-> <<s.blocked[t].word, s.blocked[t].mask>>],
                                            expected |-> {[ret |-> o.ret, cur |-> o.s.cur, out |-> o.out, ready |-> DOMAIN o.s.ready, wrong |-> Wrong(o, Ev)] : o \in outs}])
                               /\ lost' = TRUE /\ s' = s
              ELSE LET o == CHOOSE x \in fit : TRUE
                   IN /\ s' = o.s
                      /\ lost' = o.stop
                      /\ (IF ~Fair(o.s) THEN Mismatch(l, "starved", [ready |-> [t \in DOMAIN o.s.ready |-> o.s.tick - o.s.ready[t].since]])
                          ELSE IF ~o.stop /\ ~Partition(o.s) THEN Mismatch(l, "partition", [op |-> Ev.op])
                          ELSE Cover(Ev.op \o (IF Ev.op = "kill" /\ Ev.sig \in DOMAIN s.act /\ Ev.tid = s.cur THEN "handled" ELSE "") \o "_" \o Ev.out \o (IF o.s.cur # s.cur THEN "_switch" ELSE "")))
Done == l = Len(Trace) + 1 /\ Summary /\ l' = l + 1 /\ UNCHANGED <<s, lost>>
Next == New \/ Skip \/ Store \/ DoOp \/ Done
=============================================================================
