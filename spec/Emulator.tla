------------------------------ MODULE Emulator ------------------------------
(* The command line emulator: a command line and a program file in, an exit  *)
(* status, text and a report out. A program is a sequence of operations:     *)
(*   write s, arg i, argc     text on standard output (argument 0 is the path)*)
(*   spin n                   a loop of n rounds of two instructions          *)
(*   touch a                  a store to and a load from a                    *)
(*   go a, illegal            a jump to a; a word that is no instruction      *)
(*   exit n, exitgroup n, exitargc                                            *)
(* A run is [k: operation, c: instructions so far, text, st, code, fa]; st is *)
(* "run", "exit", "limit", "fault".                                           *)
EXTENDS Word, TLC
\* instructions of an operation, and how many of them have been executed when it takes effect
Cost(op) == CASE op.op = "write" -> 7 [] op.op = "arg" -> 6 [] op.op = "argc" -> 10 [] op.op = "touch" -> 6 [] op.op = "go" -> 5 [] op.op = "illegal" -> 1
              [] op.op \in {"exit", "exitgroup"} -> 4 [] op.op = "exitargc" -> 3 [] op.op = "spin" -> 2 + 2 * op.n
\* fuel: 0 and -2 (not given) are no limit, -1 is the largest number there is
Limited(cmd) == cmd.fuel > 0
Fresh == [k |-> 1, c |-> 0, text |-> "", st |-> "run", code |-> 0, fa |-> Zero]
\* Writable memory: the data segment and everything between it and the end of memory (256 MiB at least when -m is not given)
DataStart == 262144
MemEnd(cmd) == IF cmd.top = Zero THEN <<0, 0, 0, 16, 0, 0, 0, 0>> ELSE cmd.top
Writable(cmd, a) == ~ULt(a, OfInt(DataStart)) /\ ~ULt(Sub(MemEnd(cmd), OfInt(8)), a)
ArgText(cmd, i) == IF i = 0 THEN cmd.path ELSE cmd.args[i]
Argc(cmd) == 1 + Len(cmd.args)
\* what an operation does when all of its instructions up to the decisive one are executed
Effect(cmd, r, op) ==
  LET n == [r EXCEPT !.k = @ + 1, !.c = @ + Cost(op)] IN
  CASE op.op = "write" -> [n EXCEPT !.text = @ \o op.s]
    [] op.op = "arg" -> [n EXCEPT !.text = @ \o ArgText(cmd, op.n)]
    [] op.op = "argc" -> [n EXCEPT !.text = @ \o ToString(Argc(cmd))]
    [] op.op = "touch" -> IF Writable(cmd, op.at) THEN n ELSE [r EXCEPT !.st = "fault", !.fa = op.at]
    [] op.op = "go" -> [r EXCEPT !.c = @ + 5, !.st = "fault", !.fa = op.at]
    [] op.op = "illegal" -> [r EXCEPT !.st = "fault"]
    [] op.op \in {"exit", "exitgroup"} -> [n EXCEPT !.st = "exit", !.code = op.n]
    [] op.op = "exitargc" -> [n EXCEPT !.st = "exit", !.code = Argc(cmd)]
    [] op.op = "spin" -> n
\* the number of the instruction that decides: the last one, but a store or a word that is no instruction faults when it is reached
Decisive(cmd, op) == IF op.op = "touch" /\ ~Writable(cmd, op.at) THEN 5 ELSE Cost(op)
Stopped(r, c) == [r EXCEPT !.st = "limit", !.c = c]
\* precise simulation stops after exactly the given number of instructions
PreciseOp(cmd, r, op) ==
  IF ~Limited(cmd) \/ r.c + Decisive(cmd, op) < cmd.fuel THEN Effect(cmd, r, op)
  ELSE IF r.c + Decisive(cmd, op) > cmd.fuel THEN Stopped(r, cmd.fuel)
  ELSE LET n == Effect(cmd, r, op) IN IF n.st = "run" \/ op.op = "go" THEN [n EXCEPT !.st = "limit", !.c = cmd.fuel] ELSE n
\* the fast engine looks at the limit where control leaves the straight line: when a branch is taken
RoundAtLimit(cmd, r, op) == LET need == cmd.fuel - r.c - 2 IN IF need <= 2 THEN 1 ELSE (need + 1) \div 2
FastOp(cmd, r, op) ==
  IF ~Limited(cmd) THEN Effect(cmd, r, op)
  ELSE IF op.op = "spin" THEN LET i == RoundAtLimit(cmd, r, op) IN IF i < op.n THEN Stopped(r, r.c + 2 + 2 * i) ELSE Effect(cmd, r, op)
  ELSE IF op.op = "go" /\ r.c + 5 >= cmd.fuel THEN Stopped(r, r.c + 5)
  ELSE Effect(cmd, r, op)
Step(cmd, r) == IF cmd.precise THEN PreciseOp(cmd, r, cmd.prog[r.k]) ELSE FastOp(cmd, r, cmd.prog[r.k])
\* ---- what the shell sees of a finished run ----
Status(r) == IF r.st = "exit" THEN r.code % 256 ELSE 255
Summary_(cmd, r) == IF r.st = "exit" /\ ~cmd.silent THEN "exit" ELSE "none"
Counted(cmd) == cmd.fuel \notin {0, -2}
Said(cmd, r) == CASE r.st = "exit" -> "none" [] r.st = "fault" -> "machine" [] r.st = "limit" -> IF cmd.silent THEN "none" ELSE "timeout"
=============================================================================
