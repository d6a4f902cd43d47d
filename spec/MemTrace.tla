------------------------------ MODULE MemTrace ------------------------------
(* Validates recorded host accesses to guest memory against Memory.tla.     *)
EXTENDS Memory, TraceLib
VARIABLES l, ar, mem
vars == <<l, ar, mem>>
Init == l = 1 /\ ar = [size |-> 0, ro |-> 0, rw |-> 0] /\ mem = <<>> /\ Counters
Ev == Trace[l]
Arena == /\ l <= Len(Trace) /\ Ev.e = "arena"
         /\ ar' = [size |-> Ev.size, ro |-> Ev.ro, rw |-> Ev.rw] /\ mem' = Ev.mem /\ l' = l + 1

\* what an operation may do: outcomes it may have; if "ok", the memory after it and the data it returns
Effect(ev) ==
  LET a == ev.a  at == ToInt(ev.a)  n == ToInt(ev.n)
      same == mem
  IN CASE ev.op = "read" -> LET w == ev.w IN
            [out |-> IF CanRead(ar, a) THEN Yes ELSE No, mem |-> same, ret |-> IF CanRead(ar, a) THEN Peek(mem, at, w) ELSE <<>>]
       [] ev.op = "write" ->
            [out |-> IF CanWrite(ar, a) THEN Yes ELSE No, mem |-> IF CanWrite(ar, a) THEN Poke(mem, at, ev.data) ELSE same, ret |-> <<>>]
       [] ev.op \in {"copy_to", "warray"} -> LET o == RangeOutcome(ar, ar.rw, a, ev.n) IN
            [out |-> o, mem |-> IF o = Yes THEN Poke(mem, at, ev.data) ELSE same, ret |-> <<>>]
       [] ev.op \in {"copy_from", "array", "view"} -> LET o == RangeOutcome(ar, ar.ro, a, ev.n) IN
            [out |-> o, mem |-> same, ret |-> IF o = Yes THEN Peek(mem, at, n) ELSE <<>>]
       [] ev.op = "memset" -> LET o == RangeOutcome(ar, ar.rw, a, ev.n) IN
            [out |-> o, mem |-> IF o = Yes THEN Fill(mem, at, n, ev.v) ELSE same, ret |-> <<>>]
       [] ev.op = "memcmp" -> LET o1 == RangeOutcome(ar, ar.ro, a, ev.n) o2 == RangeOutcome(ar, ar.ro, ev.b, ev.n)
                                  o == IF o1 = No \/ o2 = No THEN No ELSE o1 \cup o2
            IN [out |-> o, mem |-> same, ret |-> IF o = Yes THEN <<Compare(mem, at, ToInt(ev.b), n)>> ELSE IF ev.n = Zero THEN <<0>> ELSE <<>>]
       [] ev.op \in {"strlen", "memstring"} ->
            IF ~CanRead(ar, a)
            THEN [out |-> IF ev.n = Zero THEN {"ok", "prot"} ELSE No, mem |-> same, ret |-> IF ev.op = "strlen" THEN <<0>> ELSE <<>>]
            ELSE LET room == StrRoom(ar, a, ev.n)
                     len == StrN(mem, at, room)
                     \* no terminator before the end of the arena: cut there, or refused
                     cut == len = room /\ (~IsSmall(ev.n) \/ ToInt(ev.n) > room)
                 IN [out |-> IF cut THEN {"ok", "prot"} ELSE Yes, mem |-> same,
                     ret |-> IF ev.op = "strlen" THEN <<len>> ELSE Peek(mem, at, len)]

Diff(m2) == LET ch == {i \in 1..Len(mem) : mem[i] # m2[i]} IN {<<i, m2[i]>> : i \in ch}
SetOf(s) == {s[i] : i \in DOMAIN s}
Op == /\ l <= Len(Trace) /\ Ev.e = "op"
      /\ LET x == Effect(Ev)
             want == IF Ev.out = "ok" THEN Diff(x.mem) ELSE {}
             got == SetOf(Ev.d)
             why == IF Ev.out \notin x.out THEN "outcome" ELSE IF Ev.stray # 0 THEN "stray bytes" ELSE IF want # got THEN "memory"
                    ELSE IF Ev.out = "ok" /\ Ev.ret # x.ret THEN "result" ELSE ""
         IN /\ why # "" => Mismatch(l, why, [ev |-> Ev, arena |-> ar, allowed |-> x.out, expected |-> x.ret])
            /\ Cover(Ev.op \o "_" \o Ev.out)
            /\ mem' = [i \in 1..Len(mem) |-> IF \E p \in got : p[1] = i THEN (CHOOSE p \in got : p[1] = i)[2] ELSE mem[i]]
      /\ l' = l + 1 /\ UNCHANGED ar
Done == l = Len(Trace) + 1 /\ Summary /\ l' = l + 1 /\ UNCHANGED <<ar, mem>>
Next == Arena \/ Op \/ Done
TypeOK == mem # <<>> => Len(mem) = ar.size + Margin
=============================================================================
