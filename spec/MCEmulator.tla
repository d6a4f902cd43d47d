----------------------------- MODULE MCEmulator -----------------------------
(* Laws of the command line emulator, over every program of up to MaxOps      *)
(* operations and an ending, every fuel up to MaxFuel, both engines.          *)
EXTENDS Emulator, FiniteSets, SequencesExt
CONSTANTS MaxOps, MaxFuel
Op(o, s, n, a) == [op |-> o, s |-> s, n |-> n, at |-> a]
Middle == {Op("write", "a", 0, Zero), Op("arg", "", 1, Zero), Op("argc", "", 0, Zero), Op("spin", "", 1, Zero), Op("spin", "", 3, Zero), Op("touch", "", 0, OfInt(DataStart)), Op("touch", "", 0, Zero)}
Ends == {Op("exit", "", 0, Zero), Op("exitgroup", "", 257, Zero), Op("exitargc", "", 0, Zero), Op("go", "", 0, Zero), Op("illegal", "", 0, Zero)}
Cmd(p, fuel, precise) == [prog |-> p, fuel |-> fuel, precise |-> precise, silent |-> FALSE, top |-> Zero, path |-> "p", args |-> <<"x">>]
RECURSIVE Finish(_, _)
Finish(cmd, r) == IF r.st # "run" THEN r ELSE Finish(cmd, Step(cmd, r))
Result(cmd) == Finish(cmd, Fresh)
VARIABLES prog, fuel
Init == prog \in UNION {[1..n -> Middle] : n \in 0..MaxOps} /\ fuel = -3
Next == fuel = -3 /\ \E e \in Ends, f \in 0..MaxFuel : prog' = Append(prog, e) /\ fuel' = f
Laws ==
  fuel >= 0 =>
  LET P == TLCEval(Result(Cmd(prog, fuel, TRUE)))  F == TLCEval(Result(Cmd(prog, fuel, FALSE)))
      P0 == TLCEval(Result(Cmd(prog, 0, TRUE)))  F0 == TLCEval(Result(Cmd(prog, 0, FALSE)))  Fmax == TLCEval(Result(Cmd(prog, MaxFuel * 4, FALSE))) IN
  /\ P0 = F0                                              \* the engines agree when nothing limits them
  /\ P0.st \in {"exit", "fault"} /\ F0.st \in {"exit", "fault"}
  /\ P.st # "limit" => P = P0                             \* fuel decides whether a run ends, not how
  /\ F.st # "limit" => F = F0
  /\ P.st = "limit" => P.c = fuel                         \* exactly the fuel is used
  /\ F.st = "limit" => F.c >= fuel                        \* the limit is never reported early
  /\ (fuel > 0 /\ P0.st = "exit" /\ P0.c <= fuel) => P.st = "exit" /\ F.st = "exit"   \* enough fuel is enough
  /\ (fuel > 0 /\ P0.c > fuel) => P.st = "limit"
  /\ P.st # "limit" => F.st # "limit"                     \* the fast engine never stops before the precise one
  /\ F0.c <= MaxFuel * 4 => Fmax = F0
  /\ Status(P) \in 0..255 /\ (P.st = "exit" => Status(P) = P.code % 256)
=============================================================================
