----------------------------- MODULE LinuxTrace -----------------------------
(* Validates recorded system calls of a real guest against Linux.tla.       *)
EXTENDS Linux, TraceLib
VARIABLES l, s
vars == <<l, s>>
Init == l = 1 /\ Counters
        /\ s = [ar |-> [size |-> 0, ro |-> 0, rw |-> 0], mem |-> <<>>, sig |-> [i \in 1..64 |-> NoAction], alt |-> [t \in {} |-> AltZero], tid |-> 1]
Ev == Trace[l]
Arena == /\ l <= Len(Trace) /\ Ev.e = "arena" /\ l' = l + 1
         /\ s' = [ar |-> [size |-> Ev.size, ro |-> Ev.ro, rw |-> Ev.rw], mem |-> Ev.mem, sig |-> [i \in 1..64 |-> NoAction],
                  alt |-> [t \in {} |-> AltZero], tid |-> Ev.tid]
\* the host wrote bytes into guest memory
Host == /\ l <= Len(Trace) /\ Ev.e = "poke" /\ l' = l + 1
        /\ s' = [s EXCEPT !.mem = Poke(@, Ev.at, Ev.data)]
Switch == /\ l <= Len(Trace) /\ Ev.e = "switch" /\ l' = l + 1 /\ s' = [s EXCEPT !.tid = Ev.tid]
SetOf(q) == {q[i] : i \in DOMAIN q}
\* what is wrong with the observation if behaviour b was meant
Wrong(b, ev, got) ==
  LET idx == {p[1] : p \in got}
      want == {i \in 1..Len(s.mem) : s.mem[i] # b.mem[i]}
      val(i) == (CHOOSE p \in got : p[1] = i)[2]
      next == IF b.to = Next1 THEN OfInt(CodeBase + 8) ELSE IF b.to = Stop1 THEN OfInt(CodeBase + 4) ELSE AddInt(b.to, 4)
  IN IF ev.out # b.out THEN "outcome"
     ELSE IF ev.stray # 0 THEN "stray bytes" ELSE IF ev.fds # 0 THEN "host descriptors"
     ELSE IF ev.leak # 0 THEN "host file"
     ELSE IF ev.print # b.print THEN "output"
     ELSE IF \E i \in idx \ b.free : i \notin want \/ val(i) # b.mem[i] THEN "memory" ELSE IF \E i \in want : i \notin idx THEN "memory not written"
     ELSE IF b.out # "ok" THEN ""
     ELSE IF ev.ret # b.ret THEN "result"
     ELSE IF ev.pc # next THEN "continuation"
     ELSE IF ev.sp2 # (IF b.sp = SameSp THEN ev.sp ELSE b.sp) THEN "stack pointer"
     ELSE IF ev.regs # 0 THEN "registers" ELSE ""
Time(ev, mem) == \* clocks the guest reads are the host's, between before and after the call
  (ev.num \in {113, 169} /\ ev.out = "ok" /\ ev.timed = 1) =>
     LET p == ToInt(IF ev.num = 113 THEN ev.args[2] ELSE ev.args[1])
         sec == Peek(mem, p, 8) sub == Peek(mem, p + 8, 8)
     IN ~ULt(sec, ev.t0) /\ ~ULt(ev.t1, sec) /\ ULt(sub, IF ev.num = 113 THEN OfInt(1000000000) ELSE OfInt(1000000))
DoCall == /\ l <= Len(Trace) /\ Ev.e = "call"
          /\ LET got == SetOf(Ev.d)
                 bs == Call(s, Ev.num, Ev.args)
                 fit == {b \in bs : Wrong(b, Ev, got) = ""}
                 mem2 == [i \in 1..Len(s.mem) |-> IF \E p \in got : p[1] = i THEN (CHOOSE p \in got : p[1] = i)[2] ELSE s.mem[i]]
             IN /\ (IF fit = {} THEN Mismatch(l, CHOOSE w \in {Wrong(b, Ev, got) : b \in bs} : TRUE, [ev |-> Ev, arena |-> s.ar,
                          expected |-> {[out |-> b.out, ret |-> b.ret, to |-> b.to, sp |-> b.sp, wrong |-> Wrong(b, Ev, got)] : b \in bs}])
                    ELSE IF ~Time(Ev, mem2) THEN Mismatch(l, "time", Ev) ELSE Cover("call" \o ToString(Ev.num) \o "_" \o Ev.out))
                /\ s' = IF fit = {} THEN [s EXCEPT !.mem = mem2] ELSE LET b == CHOOSE x \in fit : TRUE IN [s EXCEPT !.mem = mem2, !.sig = b.sig, !.alt = b.alt]
          /\ l' = l + 1
Done == l = Len(Trace) + 1 /\ Summary /\ l' = l + 1 /\ UNCHANGED s
Next == Arena \/ Host \/ Switch \/ DoCall \/ Done
=============================================================================
