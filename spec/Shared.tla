------------------------------- MODULE Shared -------------------------------
(* Decoded code shared between machines. A program is a sequence of pieces  *)
(* of code, each [at, code]; a machine is [p, q, sh, acc, ev, ar]: program  *)
(* loaded, program whose code it runs now, sharing asked for, accelerated,  *)
(* evicted, kind of arena.                                                  *)
EXTENDS Integers, Sequences
Pieces(progs, x) == IF x.ev THEN <<>> ELSE LET s == progs[x.q + 1].segs IN IF x.q = x.p THEN s ELSE <<s[1]>>
\* patching reaches the piece with the patched function, the first
Own(x, i) == ~x.sh \/ (x.acc /\ i = 1)
Same(a, b) == a.at = b.at /\ a.code = b.code
\* what a run leaves: the guest's own routine returns 100, the accelerated one the length, 3
RunResult(progs, x) == progs[x.p + 1].data + progs[x.q + 1].k + (IF x.acc THEN 3 ELSE 100)
MustShare(progs, x, i, y, j) == /\ Same(Pieces(progs, x)[i], Pieces(progs, y)[j]) /\ ~Own(x, i) /\ ~Own(y, j) /\ x.ar = y.ar
MustDiffer(progs, x, i, y, j) == ~Same(Pieces(progs, x)[i], Pieces(progs, y)[j]) \/ Own(x, i) \/ Own(y, j)
\* the identities id[m][i] two different machines see
PairOk(progs, x, idx, y, idy) ==
  \A i \in DOMAIN Pieces(progs, x), j \in DOMAIN Pieces(progs, y) :
     /\ (MustShare(progs, x, i, y, j) => idx[i] = idy[j])
     /\ (MustDiffer(progs, x, i, y, j) => idx[i] # idy[j])
=============================================================================
