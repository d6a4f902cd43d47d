------------------------------ MODULE LATrace -------------------------------
(* Validates recorded executions of the emulator against LA64.              *)
(* Each "run" event gives the changes made to the machine beforehand, and   *)
(* what one or more engines were observed to do; the specification executes *)
(* the same program instruction by instruction and every observation must   *)
(* equal the specification's final state.                                   *)
(* Each "slice" event continues one machine (or redirects it first) with an *)
(* engine and an instruction limit; the specification says where it must    *)
(* stop and with what count.                                                *)
EXTENDS LA64, Json, IOUtils, SequencesExt

DefWindows == <<<<1048448, 384>>, <<2097024, 128>>>>
Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES l,      \* index of the next event
          phase,  \* "idle", "run"
          m,      \* the machine
          pre,    \* the machine when the current run began
          code,   \* the program
          k,      \* instructions executed in the current run
          lg,     \* digest of the program counters of the instructions begun in a run under the debugger
          und     \* a register left arbitrary by a division by zero (0: none)
vars == <<l, phase, m, pre, code, k, und, lg>>

Fresh == [pc |-> Zero, r |-> [i \in 1..31 |-> Zero], f |-> [i \in 1..32 |-> Zero], fu |-> {},
          cc |-> [i \in 1..8 |-> 0], ll |-> FALSE,
          mem |-> [i \in 1..FoldLeft(LAMBDA s, x : s + x[2], 0, Windows) |-> 0], st |-> "run", fa |-> Zero]

AllOps == {T6[x] : x \in D6} \cup {T7[x] : x \in D7} \cup {T8[x] : x \in D8} \cup {T10[x] : x \in D10} \cup {T17[x] : x \in D17}
          \cup {T22[x] : x \in D22} \cup {"alsl.w", "alsl.wu", "alsl.d", "bytepick.d", "bstrpick.w", "bstrins.w", "bceqz", "bcnez",
          "fcmp.s", "fcmp.d", "fsel", "illegal", "stop"}
Extra == {"slices", "syscall", "break", "out_stop", "out_limit", "out_ill", "out_prot", "out_exec", "out_misaligned", "out_abort", "out_nosys"}
         \cup {"sys_" \o x : x \in {"stop", "inc", "jump", "throw", "store", "readpc", "regs", "nosys"}}
Count(x) == TLCSet(1, [TLCGet(1) EXCEPT ![x] = @ + 1])
Note(op) == TLCSet(1, [TLCGet(1) EXCEPT ![op] = @ + 1])

Upd(s, prs) == FoldLeft(LAMBDA acc, p : [acc EXCEPT ![p[1]] = p[2]], s, prs)

Init == /\ l = 1 /\ phase = "idle" /\ m = Fresh /\ pre = Fresh /\ k = 0 /\ und = 0 /\ lg = 0
        /\ code = [base |-> 0, len |-> 0, dense |-> <<>>, sp |-> <<>>, dflt |-> StopWord]
        /\ TLCSet(1, [o \in AllOps \cup Extra |-> 0]) /\ TLCSet(2, 0) /\ TLCSet(3, 0) /\ TLCSet(4, 0)

Ev == Trace[l]
Code == /\ phase = "idle" /\ l <= Len(Trace) /\ Ev.e = "code"
        /\ code' = [base |-> Ev.base, len |-> Ev.len, dense |-> Ev.ws, sp |-> Ev.sp, dflt |-> Ev.dflt]
        /\ l' = l + 1 /\ m' = Fresh /\ UNCHANGED <<phase, pre, k, und, lg>>

Begin == /\ phase = "idle" /\ l <= Len(Trace) /\ Ev.e = "run"
         /\ LET m1 == [m EXCEPT !.pc = OfInt(Ev.pc), !.r = Upd(@, Ev.set), !.f = Upd(@, Ev.fset), !.cc = Upd(@, Ev.cset),
                                !.mem = Upd(@, Ev.mset), !.st = "run", !.fu = {}]
            IN m' = m1 /\ pre' = m1
         /\ phase' = "run" /\ k' = 0 /\ und' = 0 /\ lg' = 0 /\ UNCHANGED <<l, code>>

NoBudget == Ev.eng = "debug" /\ Ev.lim = Zero
\* continue the machine where it is (pc = -1) or somewhere else
BeginSlice == /\ phase = "idle" /\ l <= Len(Trace) /\ Ev.e = "slice"
              /\ LET m1 == [m EXCEPT !.pc = IF Ev.pc < 0 THEN @ ELSE OfInt(Ev.pc), !.r = Upd(@, Ev.set), !.f = Upd(@, Ev.fset), !.cc = Upd(@, Ev.cset),
                                !.mem = Upd(@, Ev.mset), !.st = IF NoBudget THEN "limit" ELSE "run", !.fu = {}]
                 IN m' = m1 /\ pre' = m1
              /\ phase' = "run" /\ k' = 0 /\ und' = 0 /\ lg' = 0 /\ Count("slices") /\ UNCHANGED <<l, code>>

Fetch(i) == IF i < Len(code.dense) THEN code.dense[i + 1]
            ELSE LET s == SelectSeq(code.sp, LAMBDA p : p[1] = i) IN IF s = <<>> THEN code.dflt ELSE s[1][2]
InCode == IsSmall(m.pc) /\ ToInt(m.pc) >= code.base /\ ToInt(m.pc) < code.base + 4 * code.len
Running == phase = "run" /\ m.st = "run"

Aligned == m.pc[1] % 4 = 0

(* System calls the driver installs. The number is the whole of register 11, *)
(* or, in the fast engines, the code of the instruction when that is not 0:   *)
(* such a call returns to the link register.                                  *)
SysNrOf(w) == IF Fld(w, 0, 10) # 0 THEN OfInt(Fld(w, 0, 10)) ELSE m.r[11]
KindOf(w) == LET SysNr == SysNrOf(w) IN IF ~IsSmall(SysNr) THEN "nosys"
           ELSE LET n == ToInt(SysNr) IN
                CASE n = 490 -> "stop" [] n = 491 -> "inc" [] n = 492 -> "jump" [] n = 493 -> "throw" [] n = 494 -> "store" [] n = 495 -> "readpc"
                  [] n = 496 -> "regs" [] OTHER -> "nosys"
Handled(w) == LET SysKind == KindOf(w)  n == IF Fld(w, 0, 10) # 0 THEN [m EXCEPT !.pc = R(m, 1)] ELSE Nxt(m)  a0 == R(m, 4)  a1 == R(m, 5)  a2 == R(m, 6) IN
   CASE SysKind = "stop" -> [n EXCEPT !.st = "stop"]
     [] SysKind = "inc" -> [n EXCEPT !.r[4] = AddInt(a0, 1)]
     [] SysKind = "jump" -> IF Fld(w, 0, 10) # 0 THEN n ELSE [m EXCEPT !.pc = a1]
     [] SysKind = "throw" -> [m EXCEPT !.st = "abort", !.fa = a0]
     [] SysKind = "store" -> LET q == Store(m, a1, 8, a2) IN IF q.st = "run" THEN [q EXCEPT !.pc = n.pc] ELSE q
     [] SysKind = "readpc" -> [n EXCEPT !.r[4] = m.pc]
     [] SysKind = "regs" -> [n EXCEPT !.r[4] = Add(Add(a1, R(m, 10)), R(m, 31)), !.f[1] = m.f[2], !.fu = IF 1 \in m.fu THEN @ \cup {0} ELSE @ \ {0}]
     [] OTHER -> [m EXCEPT !.st = "nosys", !.fa = SysNrOf(w)]
\* the state after one instruction
After(w, op) == CASE op = "syscall" -> IF Fld(w, 10, 5) # 0 \/ (Fld(w, 0, 10) # 0 /\ Ev.e = "slice" /\ Ev.eng \in {"slow", "debug"}) THEN Unmod(m) ELSE Handled(w)
                  [] op = "break" -> [m EXCEPT !.st = "nosys", !.fa = Zero]
                  [] OTHER -> Exec1(m, w, op)
\* does control leave the straight line here? (a handler that moves the pc counts)
Transfers(w, op, n) == IF op = "syscall" THEN n.st = "run" /\ (n.pc # PC4(m) \/ Fld(w, 0, 10) # 0) ELSE Taken(m, w, op)
AtLimit(k1) == ~ULt(Add(Ev.c0, OfInt(k1)), Ev.lim)
Pause(w, op, n) == /\ Ev.e = "slice" /\ n.st = "run"
                   /\ \/ Ev.eng = "fast" /\ AtLimit(k + 1) /\ Transfers(w, op, n)
                      \/ Ev.eng \in {"slow", "debug"} /\ AtLimit(k + 1)

\* The result of a division by zero is arbitrary, and so is what depends on it: from where such a register
\* may be used (or a second one appears) the rest of the run is not judged.
Depends(w, op) == und # 0 /\ (op = "syscall" \/ und \in {Fld(w, 0, 5), Fld(w, 5, 5), Fld(w, 10, 5)} \/ DivByZero(m, w, op))
RunLimit == IF code.len > 12000 THEN 60000 ELSE 1500   \* the instruction limit the driver sets
MaxSteps == IF code.len > 12000 THEN 60000 ELSE 4000   \* the model gives up here: no block of the generated programs is that much longer
Step == /\ Running /\ InCode /\ k < MaxSteps /\ Aligned
        /\ LET w == Fetch((ToInt(m.pc) - code.base) \div 4)  op == Decode(w)
               n == IF Depends(w, op) THEN Unmod(m) ELSE After(w, op)
           IN /\ m' = IF Pause(w, op, n) THEN [n EXCEPT !.st = "limit"] ELSE n
              /\ Note(op) /\ (IF op = "syscall" THEN Count("sys_" \o KindOf(w)) ELSE TRUE)
              /\ und' = IF DivByZero(m, w, op) THEN rd(w) ELSE und
              /\ lg' = IF Ev.e = "slice" /\ Ev.eng = "debug" THEN (lg * 31 + ((ToInt(m.pc) \div 4) % 65536)) % 1000003 ELSE 0
        /\ k' = k + 1 /\ UNCHANGED <<l, phase, pre, code>>
LeaveCode == Running /\ ~InCode /\ m' = [m EXCEPT !.st = "exec", !.fa = m.pc] /\ UNCHANGED <<l, phase, pre, code, k, und, lg>>
Misaligned == Running /\ InCode /\ ~Aligned /\ m' = [m EXCEPT !.st = "misaligned", !.fa = m.pc] /\ UNCHANGED <<l, phase, pre, code, k, und, lg>>
TooLong == Running /\ InCode /\ Aligned /\ k >= MaxSteps /\ m' = [m EXCEPT !.st = "endless"] /\ UNCHANGED <<l, phase, pre, code, k, und, lg>>

\* the machine state an observation describes
ObsR(o) == Upd(pre.r, o.r)
ObsF(o) == Upd(pre.f, o.f)
ObsMem(o) == Upd(pre.mem, o.m)
FMatch(o) == LET of == ObsF(o) IN
   \A i \in 1..32 : IF (i - 1) \in m.fu THEN SubSeq(of[i], 1, 4) = SubSeq(m.f[i], 1, 4) ELSE of[i] = m.f[i]
\* Running straight off the end of the code ends in an exception, but the engines do not agree on its kind:
\* one entry past the last instruction is kept that never decodes.
FellOff == m.st = "exec" /\ m.pc = OfInt(code.base + 4 * code.len) /\ LET w == Fetch(code.len - 1) IN Decode(w) # "syscall" /\ ~Taken(m, w, Decode(w))
\* what is wrong with observation o ("" when nothing is)
Wrong(o) ==
  IF m.st = "unmodelled" \/ (Ev.e = "slice" /\ m.st = "endless") THEN ""
  ELSE IF Ev.e = "run" /\ o.out = "limit" THEN (IF k >= RunLimit THEN "" ELSE "stopped before the limit")
  ELSE IF o.out # m.st /\ ~(FellOff /\ o.out = "ill") THEN "outcome"
  ELSE IF o.out # "ill" /\ m.st \in {"prot", "exec", "misaligned", "abort"} /\ o.fa # m.fa THEN "fault address"
  ELSE IF (LET or == ObsR(o) IN \E i \in 1..31 : or[i] # m.r[i] /\ (und = 0 \/ i # und)) THEN "registers"
  ELSE IF o.r0 # 0 THEN "register zero"
  ELSE IF ~FMatch(o) THEN "fp registers"
  ELSE IF o.cc # m.cc THEN "condition flags"
  ELSE IF o.m # <<>> /\ ObsMem(o) # m.mem THEN "memory"
  ELSE IF o.m = <<>> /\ pre.mem # m.mem THEN "memory"
  ELSE IF o.stray # 0 THEN "memory outside the addressed bytes"
  ELSE IF m.st \in {"stop", "limit", "abort", "nosys"} /\ o.pc # m.pc THEN "pc"
  ELSE IF m.st \in {"stop", "limit"} /\ o.cnt >= 0 /\ o.cnt # k THEN "instruction count"
  ELSE IF Ev.e = "slice" /\ Ev.eng \in {"fast", "debug"} /\ ~NoBudget /\ m.st \in {"stop", "limit"} /\ o.lr # (m.st = "limit") THEN "limit report"
  ELSE IF Ev.e = "slice" /\ Ev.eng \in {"fast", "debug"} /\ ~NoBudget /\ m.st \in {"stop", "limit"} /\ o.st # (m.st = "stop") THEN "stop report"
  ELSE IF Ev.e = "slice" /\ Ev.eng = "debug" /\ Ev.log[1] # k THEN "instructions shown"
  ELSE IF Ev.e = "slice" /\ Ev.eng = "debug" /\ Ev.log[2] # lg THEN "program counters shown"
  ELSE IF Ev.e = "slice" /\ Ev.eng = "debug" /\ Ev.log[3] = 0 THEN "text or registers shown"
  ELSE ""
DiffR(o) == LET or == ObsR(o) IN {<<i, m.r[i], or[i]>> : i \in {j \in 1..31 : or[j] # m.r[j]}}
DiffM(o) == LET om == ObsMem(o) IN {<<i, m.mem[i], om[i]>> : i \in {j \in 1..Len(m.mem) : om[j] # m.mem[j]}}
DiffF(o) == LET or == ObsF(o) IN {<<i - 1, m.f[i], or[i]>> : i \in {j \in 1..32 : or[j] # m.f[j]}}
Report(o, why) ==
  PrintT("MISMATCH " \o ToJson([event |-> l, engine |-> o.eng, why |-> why, observed |-> o.out, expected |-> m.st, pc0 |-> pre.pc,
     op |-> IF IsSmall(pre.pc) /\ ToInt(pre.pc) >= code.base /\ ToInt(pre.pc) < code.base + 4 * code.len
            THEN Decode(Fetch((ToInt(pre.pc) - code.base) \div 4)) ELSE "?",
     word |-> IF IsSmall(pre.pc) THEN Fetch((ToInt(pre.pc) - code.base) \div 4) ELSE 0,
     steps |-> k, count |-> o.cnt, regs |-> DiffR(o), fregs |-> DiffF(o), mem |-> IF o.m = <<>> THEN {} ELSE DiffM(o), cc |-> <<m.cc, o.cc>>, pc |-> <<m.pc, o.pc>>, fa |-> <<m.fa, o.fa>>]))

\* state from which the trace continues: the first observation's (equal to the
\* specification's except in the parts the ISA leaves unspecified, or after a mismatch)
End == /\ phase = "run" /\ m.st # "run"
       /\ \A i \in 1..Len(Ev.obs) : LET w == Wrong(Ev.obs[i]) IN w # "" => (Report(Ev.obs[i], w) /\ TLCSet(2, TLCGet(2) + 1))
       /\ (IF ("out_" \o m.st) \in Extra THEN Count("out_" \o m.st) ELSE TRUE)
       /\ IF m.st = "unmodelled" THEN TLCSet(3, TLCGet(3) + 1) ELSE IF m.st = "endless" THEN TLCSet(4, TLCGet(4) + 1) ELSE TRUE
       /\ LET o == Ev.obs[1]
          IN m' = [m EXCEPT !.pc = IF Ev.e = "slice" THEN o.pc ELSE @, !.r = ObsR(o), !.f = ObsF(o), !.cc = o.cc, !.mem = ObsMem(o), !.fu = {}, !.st = "run",
                          !.ll = IF m.st \in {"unmodelled", "endless"} \/ (Ev.e = "run" /\ o.out = "limit") THEN o.ll = 1 ELSE @]
       /\ l' = l + 1 /\ phase' = "idle" /\ UNCHANGED <<pre, code, k, und, lg>>

Done == /\ phase = "idle" /\ l = Len(Trace) + 1
        /\ PrintT("COVER " \o ToJson(TLCGet(1)))
        /\ PrintT("VALIDATED " \o ToJson([events |-> Len(Trace), mismatches |-> TLCGet(2), skipped |-> TLCGet(3), endless |-> TLCGet(4)]))
        /\ l' = l + 1 /\ UNCHANGED <<phase, m, pre, code, k, und, lg>>
Next == Code \/ Begin \/ BeginSlice \/ Step \/ LeaveCode \/ Misaligned \/ TooLong \/ End \/ Done
Spec == Init /\ [][Next]_vars

\* checked in every state of every validated execution
TypeOK == /\ Len(m.r) = 31 /\ Len(m.f) = 32 /\ \A i \in 1..31 : Len(m.r[i]) = 8
          /\ \A i \in 1..8 : m.cc[i] \in {0, 1}
=============================================================================
