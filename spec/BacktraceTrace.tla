--------------------------- MODULE BacktraceTrace ---------------------------
(* Judges recorded symbol lookups, backtraces and calls under the debugger. *)
EXTENDS Backtrace, TraceLib, FiniteSets
VARIABLES l, S, size
Ev == Trace[l]
Init == l = 1 /\ S = {} /\ size = Zero /\ Counters
Range(q) == {q[i] : i \in DOMAIN q}
Report(why) == IF why = "" THEN TRUE ELSE Mismatch(l, why, Ev)
Image == /\ Ev.e = "image" /\ S' = Range(Ev.syms) /\ size' = Ev.size /\ l' = l + 1 /\ Cover("images")
Lookup == /\ Ev.e = "lookup" /\ UNCHANGED <<S, size>> /\ l' = l + 1
          /\ Cover("lookups") /\ Cover(IF Owners(S, Ev.at) = {} THEN "no symbol" ELSE IF \E s \in S : Holds(s, Ev.at) THEN "inside a symbol" ELSE "after a symbol")
          /\ Report(IF Shows(S, Ev.at, Ev.off, Ev) THEN "" ELSE "the symbol shown for an address differs")
\* lines: the start, then the return addresses numbered from 0
Expected == LET readable == IF ULt(Ev.sp, size) THEN Ev.stk ELSE <<>> IN <<Ev.initial>> \o Chain(size, Ev.sp, readable, Ev.ra, 0)
Index(k) == IF k = 1 THEN "-" ELSE ToString(k - 2)
Back == /\ Ev.e = "backtrace" /\ UNCHANGED <<S, size>> /\ l' = l + 1
        /\ LET x == Expected IN
           /\ Cover("backtraces") /\ Cover(IF Len(x) = Depth + 1 THEN "deepest" ELSE IF Len(x) = 1 THEN "no callers" ELSE IF ULt(Ev.sp, size) THEN "some callers" ELSE "stack unreadable")
           /\ Report(IF Ev.threw THEN "the backtrace failed"
                     ELSE IF Len(Ev.lines) # Len(x) THEN "number of entries"
                     ELSE IF \E k \in 1..Len(x) : ~Ev.lines[k].ok \/ Ev.lines[k].i # Index(k) THEN "form of an entry"
                     ELSE IF \E k \in 1..Len(x) : Ev.lines[k].a # x[k] THEN "address of an entry"
                     ELSE IF \E k \in 1..Len(x) : ~Shows(S, x[k], TRUE, Ev.lines[k]) THEN "symbol of an entry" ELSE "")
\* ---- the functions the driver's program has: f0..f8 and g (9) ----
First(a) == IF a = <<>> THEN 0 ELSE a[1]
RECURSIVE SumF(_, _)
SumF(as, i) == IF i > Len(as) THEN 0 ELSE First(as[i]) * (2 ^ (3 * ((i - 1) % 6))) + SumF(as, i + 1)
RECURSIVE SumB(_, _)
SumB(a, i) == IF i > Len(a) THEN 0 ELSE a[i] + SumB(a, i + 1)
Result == IF Ev.f = 9 THEN SumB(Ev.args[1], 1) ELSE IF Ev.f = 0 THEN 77 ELSE SumF(Ev.args, 1)
\* instructions up to and including the system call that ends the program
Steps == IF Ev.f = 9 THEN 5 + 4 * (Len(Ev.args[1]) + 1) ELSE 5 + 3 * Ev.f
Call == /\ Ev.e = "call" /\ UNCHANGED <<S, size>> /\ l' = l + 1
        /\ LET ends == Steps <= Ev.max  k == IF ends THEN Steps ELSE Ev.max IN
           /\ Cover(IF ends THEN "calls that end" ELSE "calls cut short")
           /\ Report(IF Ev.how # (IF ends THEN "ok" ELSE "limit") THEN "outcome of a call under the debugger"
                     ELSE IF ends /\ Ev.r # Result THEN "result of a call under the debugger"
                     ELSE IF Ev.cnt # OfInt(k) THEN "instruction count"
                     ELSE IF Ev.lines >= 0 /\ (Ev.lines # k \/ ~Ev.shown) THEN "instructions shown" ELSE "")
Done == l = Len(Trace) + 1 /\ Summary /\ l' = l + 1 /\ UNCHANGED <<S, size>>
Next == (l <= Len(Trace) /\ (Image \/ Lookup \/ Back \/ Call)) \/ Done
=============================================================================
