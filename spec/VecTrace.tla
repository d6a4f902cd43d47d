------------------------------ MODULE VecTrace ------------------------------
(* Validates recorded executions of floating-point and vector instructions   *)
(* against LSX.  A "seq" event gives changes made to the machine, a straight *)
(* line of instructions, and what each engine was observed to do with it.    *)
(* A "map" event gives a range of instruction prefixes that an engine        *)
(* executed, or reported as illegal: what the ISA table assigns decides      *)
(* which is right (reserved prefixes may do either).                         *)
EXTENDS LSX, TraceLib, SequencesExt
DefWindows == <<<<1048448, 384>>, <<2097024, 128>>>>
VARIABLES l, m
Fresh == [v |-> [i \in 1..32 |-> [b \in 1..32 |-> 0]], dw |-> [i \in 1..32 |-> 32], fl |-> <<>>,
          r |-> [i \in 1..31 |-> Zero], cc |-> [i \in 1..8 |-> 0], mem |-> [i \in 1..512 |-> 0], st |-> "run", fa |-> Zero]
Upd(s, prs) == FoldLeft(LAMBDA acc, p : [acc EXCEPT ![p[1]] = p[2]], s, prs)
Ev == Trace[l]
Setup(e) == [m EXCEPT !.v = Upd(@, e.vset), !.r = Upd(@, e.rset), !.cc = Upd(@, e.cset), !.mem = Upd(@, e.mset), !.st = "run", !.fl = <<>>, !.dw = [i \in 1..32 |-> 32]]
RunAll(m0, ws) == FoldLeft(LAMBDA acc, w : IF acc.st # "run" THEN acc
                              ELSE LET name == IsaName(w \div 1024) IN ExecV(acc, w, name), m0, ws)
ObsV(o, pre) == Upd(pre.v, o.v)
\* acceptable lanes of the last floating-point result written to register d, if it is still there
LaneOK(x, set, n) == x \in set \/ \E y \in set : SubSeq(y, 1, n) = SubSeq(x, 1, n)
                     \/ (n \in {4, 8} /\ NaNW(n = 8) \in set /\ IsNaNW(x, n = 8) /\ ~SigNaN(x, n = 8))
RegOK(d, got, x) ==
  LET want == x.v[d + 1]  dw == x.dw[d + 1]
      f == SelectSeq(x.fl, LAMBDA y : y.d = d)
  IN \/ got = want
     \/ \A b \in 1..dw : got[b] = want[b]
     \/ f # <<>> /\ LET y == f[Len(f)] IN \A i \in DOMAIN y.r : LaneOK(LaneU(got, y.n, i), y.r[i], y.n)
Wrong(o, pre, x) ==
  IF x.st = "unmodelled" THEN ""
  ELSE IF o.out # (IF x.st = "run" THEN "stop" ELSE x.st) THEN "outcome"
  ELSE IF x.st = "prot" /\ o.fa # x.fa THEN "fault address"
  ELSE LET ov == TLCEval(ObsV(o, pre))
           badv == {i \in 0..31 : ~RegOK(i, ov[i + 1], x)}
       IN IF badv # {} THEN "vector registers"
  ELSE IF Upd(pre.r, o.r) # x.r THEN "registers"
  ELSE IF o.r0 # 0 THEN "register zero"
  ELSE IF o.cc # x.cc THEN "condition flags"
  ELSE IF Upd(pre.mem, o.m) # x.mem THEN "memory"
  ELSE IF o.stray # 0 THEN "memory outside the addressed bytes"
  ELSE ""
Tell(o, pre, x, why) ==
  LET ov == TLCEval(ObsV(o, pre)) IN
  Mismatch(l, why, [engine |-> o.eng, ops |-> [i \in 1..Len(Ev.ws) |-> IsaName(Ev.ws[i] \div 1024)], words |-> Ev.ws, observed |-> o.out, expected |-> x.st,
     v |-> {<<i, pre.v[i+1], x.v[i + 1], ov[i + 1]>> : i \in {q \in 0..31 : ~RegOK(q, ov[q + 1], x)}}, 
     src |-> IF Len(Ev.ws) = 1 THEN <<pre.v[rj(Ev.ws[1]) + 1], pre.v[rk(Ev.ws[1]) + 1], pre.v[ra(Ev.ws[1]) + 1]>> ELSE <<>>,
     r |-> LET o2 == Upd(pre.r, o.r) IN {<<i, x.r[i], o2[i]>> : i \in {q \in 1..31 : o2[q] # x.r[q]}}, cc |-> <<x.cc, o.cc>>, fa |-> <<x.fa, o.fa>>])
Init == l = 1 /\ m = Fresh /\ Counters
Seq1 == /\ l <= Len(Trace) /\ Ev.e = "seq"
        /\ LET pre == TLCEval(Setup(Ev))
               x == TLCEval(RunAll(pre, Ev.ws))
               o1 == Ev.obs[1]
           IN /\ \A i \in 1..Len(Ev.obs) : LET why == Wrong(Ev.obs[i], pre, x) IN why # "" => Tell(Ev.obs[i], pre, x, why)
              /\ \A i \in 1..Len(Ev.ws) : Cover(IsaName(Ev.ws[i] \div 1024))
              /\ (x.st # "run" => Cover("out_" \o x.st))
              /\ m' = [pre EXCEPT !.v = ObsV(o1, pre), !.r = Upd(@, o1.r), !.cc = o1.cc, !.mem = Upd(@, o1.m)]
        /\ l' = l + 1
\* the entries of the ISA table that meet the range [lo, hi] and their treatment
\* Left open: the code of BREAK and SYSCALL beyond ten bits, and the reserved modes of VLDI
OpenFrom(e) == IF e[3] \in {"break", "syscall"} THEN e[1] + 1
               ELSE IF e[3] \in {"vldi", "xvldi"} THEN e[1] + 29 * 8 ELSE e[2] + 1
MapBad(lo, hi, ill) ==
  LET a == Max2(1, IsaFind(lo, 0, Len(IsaTable)))  b == IsaFind(hi, 0, Len(IsaTable))
  IN {i \in a..b : /\ IsaTable[i][2] >= lo /\ IsaTable[i][1] <= hi /\ (IsaTable[i][3] \in Implemented) = ill
                   /\ (ill => OpenFrom(IsaTable[i]) > lo)}
Map == /\ l <= Len(Trace) /\ Ev.e = "map"
       /\ LET bad == MapBad(Ev.lo, Ev.hi, Ev.st = "ill")
          IN (bad # {} => Mismatch(l, IF Ev.st = "ill" THEN "implemented instruction reported as illegal" ELSE "unimplemented instruction executed as another",
                                   [engine |-> Ev.eng, lo |-> Ev.lo, hi |-> Ev.hi, names |-> {IsaTable[i][3] : i \in bad}]))
       /\ Cover("map_" \o Ev.st) /\ l' = l + 1 /\ UNCHANGED m
Done == l = Len(Trace) + 1 /\ Summary /\ l' = l + 1 /\ UNCHANGED m
Next == Seq1 \/ Map \/ Done
=============================================================================
