--------------------------- MODULE EmulatorTrace ---------------------------
(* Judges recorded runs of the command line emulator. *)
EXTENDS Emulator, TraceLib
VARIABLES l, ph, r
Ev == Trace[l]
Init == l = 1 /\ ph = "idle" /\ r = Fresh /\ Counters
Report(why) == IF why = "" THEN TRUE ELSE Mismatch(l, why, Ev)
Next1 == l' = l + 1 /\ ph' = "idle" /\ r' = Fresh
Refused == Ev.err # "none" /\ Ev.err # "sanitizer" /\ Ev.status \in {1, 255} /\ Ev.text = "" /\ Ev.sum = "none"
Common == IF Ev.sig # 0 THEN "the emulator was killed" ELSE IF Ev.err = "sanitizer" THEN "the emulator failed" ELSE ""
\* the command line asks for no run
Usage == /\ ph = "idle" /\ Ev.usage # "run" /\ Next1 /\ Cover("usage " \o Ev.usage)
         /\ Report(IF Common # "" THEN Common ELSE IF ~Ev.help THEN "no help shown" ELSE IF Ev.status # (IF Ev.usage = "help" THEN 0 ELSE 1) THEN "status of a command line error" ELSE "")
\* the file cannot be run
BadFile == /\ ph = "idle" /\ Ev.usage = "run" /\ Ev.file # "elf" /\ Next1 /\ Cover("file " \o Ev.file)
           /\ Report(IF Common # "" THEN Common ELSE IF ~Refused THEN "a file that cannot be run was not refused" ELSE "")
Start == ph = "idle" /\ Ev.usage = "run" /\ Ev.file = "elf" /\ ph' = "run" /\ r' = Fresh /\ UNCHANGED l
Operation == /\ ph = "run" /\ r.st = "run" /\ r' = TLCEval(Step(Ev, r)) /\ UNCHANGED <<l, ph>> /\ Cover(Ev.prog[r.k].op)
\* verbose runs mix their own text in
TextOK == Ev.verbose \/ Ev.text = r.text
End == /\ ph = "run" /\ r.st # "run" /\ Next1
       /\ Cover((IF Ev.precise THEN "precise " ELSE "fast ") \o r.st) /\ Cover(IF Ev.silent THEN "silent" ELSE "reported") /\ Cover("runs")
       /\ Report(IF Common # "" THEN Common
                 ELSE IF ~TextOK THEN "text the program wrote"
                 ELSE IF Ev.status # Status(r) THEN "exit status"
                 ELSE IF Ev.sum # Summary_(Ev, r) THEN "report of the end"
                 ELSE IF Ev.sum = "exit" /\ Ev.code # r.code THEN "exit code reported"
                 ELSE IF Ev.sum = "exit" /\ Ev.cnt # (IF Counted(Ev) THEN r.c ELSE -1) THEN "instructions reported"
                 ELSE IF ~Ev.verbose /\ Ev.err # Said(Ev, r) THEN "what was said about the end"
                 ELSE IF Ev.err = "timeout" /\ Ev.tn # r.c THEN "instructions reported at the limit"
                 ELSE IF Ev.err = "machine" /\ Ev.prog[r.k].op # "illegal" /\ Ev.data # r.fa THEN "fault address"
                 ELSE IF Ev.err = "machine" /\ ~Ev.count THEN "registers at a fault"
                 ELSE IF Ev.stats /\ r.st # "fault" /\ (Ev.stot # Ev.ninstr \/ Ev.srows # Ev.ninstr) THEN "bytecode statistics" ELSE "")
Done == l = Len(Trace) + 1 /\ Summary /\ l' = l + 1 /\ UNCHANGED <<ph, r>>
Next == (l <= Len(Trace) /\ (Usage \/ BadFile \/ Start \/ Operation \/ End)) \/ Done
=============================================================================
