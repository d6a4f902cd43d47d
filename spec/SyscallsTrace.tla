---------------------------- MODULE SyscallsTrace ----------------------------
(* Validates recorded system calls (guest and host made) against Syscalls.tla. *)
(* Guest code: four blocks of four words INC, SYSCALL (BREAK in the last),     *)
(* INC, STOP; INC adds one to register 12.                                     *)
EXTENDS Syscalls, TraceLib
VARIABLES l, t, sigs, ms
vars == <<l, t, sigs, ms>>
Base == 32
Init == l = 1 /\ Counters /\ t = Table(0) /\ sigs = <<>> /\ ms = [i \in 1..2 |-> [ar |-> [size |-> 0, ro |-> 0, rw |-> 0], mem |-> <<>>]]
Ev == Trace[l]
Step == l <= Len(Trace) /\ l' = l + 1
Sigs == Step /\ Ev.e = "sigs" /\ sigs' = Ev.sigs /\ t' = Table(Ev.max) /\ UNCHANGED ms
Inst == Step /\ Ev.e = "install" /\ t' = Install(t, Ev.n, Ev.h) /\ UNCHANGED <<sigs, ms>>
Unk == Step /\ Ev.e = "unknown" /\ t' = [t EXCEPT !.unk = Ev.h] /\ UNCHANGED <<sigs, ms>>
New == Step /\ Ev.e = "machine" /\ ms' = [ms EXCEPT ![Ev.i] = [ar |-> [size |-> Ev.size, ro |-> Ev.ro, rw |-> Ev.rw], mem |-> Ev.mem]] /\ UNCHANGED <<t, sigs>>

\* Execution as the specification sees it: e = [seen, t, r, f, out, act, free]
\* seen: invocations so far, t: the table, r: registers, f: float registers
T0 == 13
Inc(r) == [r EXCEPT ![T0] = AddInt(@, 1)]
\* one invocation in state e for number w at pc; depth limits the nesting handlers may do (their action is used once)
RECURSIVE Invoke(_, _, _, _)
Invoke(e, w, pc, ev) ==
  LET who == Answer(e.t, w)
      obs == IF Len(e.seen) < Len(ev.seen) THEN ev.seen[Len(e.seen) + 1] ELSE [k |-> "missing", id |-> 0, m |-> 0, pc |-> Zero, r |-> <<>>, args |-> <<>>]
      entryok == obs.k = who.k /\ obs.id = who.id /\ obs.m = ev.m /\ obs.r = e.r /\ (pc = <<>> \/ obs.pc = pc)
      seen2 == Append(e.seen, obs)
  IN IF who.k = "none" THEN [e EXCEPT !.out = "nosys", !.data = IF IsSmall(w) /\ w = e.r[12] THEN ToInt(w) ELSE -1]
     ELSE IF ~entryok THEN [e EXCEPT !.bad = IF obs.k = "missing" THEN "handler not invoked" ELSE "wrong handler, machine, registers or pc at entry"]
     ELSE IF who.k = "u" THEN
       LET e1 == [e EXCEPT !.seen = seen2, !.act = 0]
       IN \* (a call made by BREAK or by a handler is reported with the number register as it stands)
          IF IsSmall(w) /\ w = e.r[12] /\ obs.args # <<ToInt(w)>> THEN [e EXCEPT !.bad = "number given to the unknown-call handler"]
          ELSE IF e.act = 1 THEN [e1 EXCEPT !.out = "abort", !.data = 77]
          ELSE [e1 EXCEPT !.r[5] = OfInt(-38), !.out = IF e.act = 2 THEN "halt" ELSE @]
     ELSE
       LET sg == sigs[who.id]
           m == ms[ev.m]
           ds == [k \in 1..Len(sg.args) |-> Deliver(m.ar, m.mem, e.r, ev.f, sg.args, k)]
           mustfail == \E k \in 1..Len(ds) : ds[k].ok = No
           mayfail == \E k \in 1..Len(ds) : "prot" \in ds[k].ok
           failed == obs.args = <<<<-1>>>>
           e0 == [e EXCEPT !.seen = seen2]
       IN IF failed THEN (IF mayfail THEN [e0 EXCEPT !.out = "prot", !.data = -1] ELSE [e EXCEPT !.bad = "arguments refused"])
          ELSE IF mustfail THEN [e EXCEPT !.bad = "arguments outside memory delivered"]
          ELSE IF \E k \in 1..Len(ds) : obs.args[k] # ds[k].v THEN [e EXCEPT !.bad = "argument " \o ToString(CHOOSE k \in 1..Len(ds) : obs.args[k] # ds[k].v)]
          ELSE LET e1 == [e0 EXCEPT !.act = 0]
                   e2 == IF e.act = 4 THEN Invoke(e1, OfInt(ev.an), <<>>, ev) ELSE e1
               IN IF e2.bad # "" \/ e2.out # "" THEN e2
                  ELSE LET e3 == [e2 EXCEPT !.r[5] = ResultA0(@, sg.res, ev.rv),
                                            !.f1 = IF sg.res = "f4" THEN Low(ev.rv, 4) \o SubSeq(@, 5, 8) ELSE IF sg.res = "f8" THEN ev.rv ELSE @,
                                            !.f1any = IF sg.res = "f4" THEN TRUE ELSE IF sg.res = "f8" THEN FALSE ELSE @,
                                            !.t = IF e.act = 5 THEN Install(@, ev.an, ev.ah) ELSE @]
                       IN IF e.act = 1 THEN [e3 EXCEPT !.out = "abort", !.data = 77]
                          ELSE IF e.act = 2 THEN [e3 EXCEPT !.out = "halt"]
                          ELSE IF e.act = 3 THEN [e3 EXCEPT !.jump = ev.an]
                          ELSE e3
\* run from word index i; returns the final execution with pc index (word behind the last instruction)
RECURSIVE Go(_, _, _, _)
Go(e, i, ev, fuel) ==
  IF e.bad # "" \/ fuel = 0 THEN e
  ELSE IF i % 4 = 3 THEN [e EXCEPT !.out = "stop", !.pc = i + 1]
  ELSE IF i % 4 # 1 THEN Go([e EXCEPT !.r = Inc(e.r)], i + 1, ev, fuel - 1)
  ELSE LET w == IF i = 13 THEN Zero ELSE e.r[12]
           x == Invoke([e EXCEPT !.jump = -1], w, OfInt(Base + 4 * i), ev)
       IN IF x.bad # "" THEN x
          ELSE IF x.out = "halt" THEN [x EXCEPT !.out = "stop", !.pc = IF x.jump >= 0 THEN x.jump ELSE i + 1]
          ELSE IF x.out # "" THEN x
          ELSE Go(x, IF x.jump >= 0 THEN x.jump ELSE i + 1, ev, fuel - 1)
Start(ev) == [seen |-> <<>>, t |-> t, r |-> ev.r, f1 |-> ev.f[1], f1any |-> FALSE, out |-> "", data |-> 0, act |-> ev.act, bad |-> "", jump |-> -1, pc |-> -1]
Run(ev) == IF ev.eng = 3 THEN LET x == Invoke(Start(ev), ev.r[12], <<>>, ev) IN [x EXCEPT !.out = IF x.out \in {"", "halt"} THEN "stop" ELSE @]
           ELSE Go(Start(ev), 4 * ev.blk, ev, 100)
Wrong(ev, x) ==
  IF x.bad # "" THEN x.bad
  ELSE IF ev.out # x.out THEN "outcome"
  ELSE IF Len(ev.seen) # Len(x.seen) THEN "handlers invoked too often"
  ELSE IF ev.memsame # 1 THEN "memory" ELSE IF ev.othersame # 1 THEN "other machine"
  ELSE IF ev.out \in {"nosys", "abort"} /\ x.data >= 0 /\ ev.data # x.data THEN "exception data"
  ELSE IF \E i \in 1..32 : ev.r2[i] # x.r[i] THEN "registers"
  ELSE LET fd == {ev.fd[i] : i \in DOMAIN ev.fd}
           f1 == IF \E p \in fd : p[1] = 1 THEN (CHOOSE p \in fd : p[1] = 1)[2] ELSE ev.f[1]
       IN IF \E p \in fd : p[1] # 1 THEN "float registers"
          ELSE IF Low(f1, 4) # Low(x.f1, 4) \/ (~x.f1any /\ f1 # x.f1) THEN "float result"
          ELSE IF ev.out = "stop" /\ x.pc >= 0 /\ ev.pc # OfInt(Base + 4 * x.pc) THEN "continuation" ELSE ""
DoCall == /\ Step /\ Ev.e = "call"
          /\ LET x == Run(Ev)  why == Wrong(Ev, x)
             IN /\ IF why # "" THEN Mismatch(l, why, [ev |-> Ev, expected |-> x])
                   ELSE Cover("eng" \o ToString(Ev.eng) \o "_act" \o ToString(Ev.act) \o "_" \o Ev.out) /\ Cover("calls_" \o ToString(Len(Ev.seen)))
                        /\ (Len(Ev.seen) > 0 => Cover("sig_" \o Ev.seen[1].k \o ToString(Ev.seen[1].id)))
                /\ t' = x.t
          /\ UNCHANGED <<sigs, ms>>
Done == l = Len(Trace) + 1 /\ Summary /\ l' = l + 1 /\ UNCHANGED <<t, sigs, ms>>
Next == Sigs \/ Inst \/ Unk \/ New \/ DoCall \/ Done
==============================================================================
