---------------------------- MODULE DisasmTrace ----------------------------
(* Validates texts recorded from the real disassembler against Disasm.tla.  *)
(* "dis" is one word: its text in tokens, the address after '#', and the    *)
(* text of the same word fetched from memory at the program counter.        *)
(* "map" is a range of prefixes printed under one mnemonic ("" = reported   *)
(* as no instruction). Reserved words may be shown as anything.             *)
EXTENDS LSX, Disasm, TraceLib
DefWindows == <<>>
VARIABLE l
Ev == Trace[l]
Name(e) == NameOf(e.w)
\* left open: the code of BREAK and SYSCALL beyond ten bits, and the reserved modes of VLDI
Open(e) == \/ Name(e) \in {"break", "syscall"} /\ e.w[1] % 32 # 0
           \/ Name(e) \in {"vldi", "xvldi"} /\ Field(e.w, 5, 13) >= 29 * 256
Why(e) ==
  LET n == Name(e)
  IN IF ~e.same THEN "text at the program counter differs"
     ELSE IF e.st = "none" THEN IF n \in Implemented /\ ~Open(e) THEN "implemented instruction has no text"
                                ELSE IF e.uw # e.bytes THEN "wrong word reported" ELSE ""
     ELSE IF n = "reserved" THEN ""
     ELSE IF <<e.mn, e.ops>> \notin Texts(n, e.w) THEN "text"
     ELSE IF e.tgt # <<>> /\ n \in Relative /\ e.tgt # Refers(n, e.w, e.pc) THEN "address"
     ELSE ""
Dis == /\ l <= Len(Trace) /\ Ev.e = "dis"
       /\ LET y == Why(Ev) IN y # "" => Mismatch(l, y, [word |-> Ev.w, text |-> Ev.text, name |-> Name(Ev),
                                  want |-> IF Name(Ev) \in Placed THEN Texts(Name(Ev), Ev.w) ELSE {}])
       /\ Cover(IF Name(Ev) = "reserved" THEN "reserved" ELSE IF Ev.st = "none" THEN "none" ELSE Name(Ev))
       /\ (Ev.tgt # <<>> => Cover("targets")) /\ l' = l + 1
\* the other names a mnemonic may be shown under
Shown(n) == CASE n = "or" -> {"move"} [] n = "andi" -> {"nop"} [] n = "ori" -> {"li.w", "li.d"} [] n = "addi.w" -> {"li.w"} [] n = "addi.d" -> {"li.d"}
              [] n = "jirl" -> {"jr", "ret"} [] n = "blt" -> {"bltz", "bgtz"} [] n = "bge" -> {"bgez", "blez"} [] OTHER -> {}
OpenFrom(e) == IF e[3] \in {"break", "syscall"} THEN e[1] + 1 ELSE IF e[3] \in {"vldi", "xvldi"} THEN e[1] + 29 * 8 ELSE e[2] + 1
MapBad(lo, hi, mn) ==
  LET a == IF IsaFind(lo, 0, Len(IsaTable)) < 1 THEN 1 ELSE IsaFind(lo, 0, Len(IsaTable))  b == IsaFind(hi, 0, Len(IsaTable))
  IN {i \in a..b : /\ IsaTable[i][2] >= lo /\ IsaTable[i][1] <= hi
                   /\ IF mn = "" THEN IsaTable[i][3] \in Implemented /\ OpenFrom(IsaTable[i]) > lo
                      ELSE mn # IsaTable[i][3] /\ mn \notin Shown(IsaTable[i][3])}
Map == /\ l <= Len(Trace) /\ Ev.e = "map"
       /\ LET bad == MapBad(Ev.lo, Ev.hi, Ev.mn)
          IN bad # {} => Mismatch(l, "mnemonic", [lo |-> Ev.lo, hi |-> Ev.hi, shown |-> Ev.mn, names |-> {IsaTable[i][3] : i \in bad}])
       /\ Cover("map") /\ l' = l + 1
\* outside memory there is no instruction to name
Out == /\ l <= Len(Trace) /\ Ev.e = "out"
       /\ (Ev.instr => Mismatch(l, "text without memory", [text |-> Ev.text])) /\ Cover("out") /\ l' = l + 1
Done == l = Len(Trace) + 1 /\ Summary /\ l' = l + 1
Init == l = 1 /\ Counters
Next == Dis \/ Map \/ Out \/ Done
=============================================================================
