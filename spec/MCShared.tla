------------------------------ MODULE MCShared ------------------------------
(* Machines that load, share, patch, evict and reload code, one operation   *)
(* at a time, with a registry that hands out identities, against the rules  *)
(* of Shared. Prints its histories for replay on real machines.             *)
EXTENDS Shared, FiniteSets, TLC, Json
CONSTANTS Depth, Loads, Machines, Arenas, Emit
Piece(at, code) == [at |-> at, code |-> code]
Prog(segs, k, data) == [segs |-> segs, k |-> k, data |-> data]
\* the programs of the driver
Progs == << Prog(<<Piece(16, 0)>>, 1, 1000), Prog(<<Piece(16, 1)>>, 2, 1000), Prog(<<Piece(16, 2)>>, 3, 1000), Prog(<<Piece(20, 0)>>, 1, 1000), Prog(<<Piece(16, 0)>>, 1, 2000),
            Prog(<<Piece(16, 0), Piece(24, 3)>>, 1, 3000), Prog(<<Piece(16, 4)>>, 1, 1000), Prog(<<Piece(16, 5)>>, 1, 1000), Prog(<<Piece(16, 1), Piece(24, 3)>>, 2, 1000) >>
VARIABLES ms, ids, src, reg, next, path
vars == <<ms, ids, src, reg, next, path>>
Init == ms = <<>> /\ ids = <<>> /\ src = <<>> /\ reg = {} /\ next = 1 /\ path = <<>>
Used(i, s) == UNION {{i[m][j] : j \in DOMAIN i[m]} : m \in DOMAIN i} \cup {s[m] : m \in DOMAIN s}
Known(piece, ar) == {r.id : r \in {r \in reg : r.at = piece.at /\ r.code = piece.code /\ r.ar = ar}}
\* identities for pieces, one after the other: registered ones are shared, new ones are numbered
RECURSIVE Load(_, _, _)
Load(pieces, x, acc) ==
  IF pieces = <<>> THEN acc
  ELSE LET p == Head(pieces)  k == {r.id : r \in {r \in acc.reg : r.at = p.at /\ r.code = p.code /\ r.ar = x.ar}}  i == IF x.sh /\ k # {} THEN CHOOSE i \in k : TRUE ELSE acc.next IN
       Load(Tail(pieces), x, [ids |-> Append(acc.ids, i), next |-> IF i = acc.next THEN acc.next + 1 ELSE acc.next,
                              reg |-> IF x.sh THEN acc.reg \cup {[id |-> i, at |-> p.at, code |-> p.code, ar |-> x.ar]} ELSE acc.reg])
Prune(r, i, s) == {e \in r : e.id \in Used(i, s)}
Do(op, ms2, ids2, src2, reg2, next2) == /\ ms' = ms2 /\ ids' = ids2 /\ src' = src2 /\ reg' = Prune(reg2, ids2, src2) /\ next' = next2 /\ path' = Append(path, op)
                                         /\ IF Emit THEN PrintT("PATH " \o ToJson(Append(path, op))) ELSE TRUE
Put(f, m, v) == (m :> v) @@ f
Without(f, m) == [n \in DOMAIN f \ {m} |-> f[n]]
Flag(b) == IF b THEN 1 ELSE 0
Create(m, p, sh, ar) == LET x == [p |-> p, q |-> p, sh |-> sh, acc |-> FALSE, ev |-> FALSE, ar |-> ar]  z == Load(Progs[p + 1].segs, x, [ids |-> <<>>, next |-> next, reg |-> reg]) IN
  Do([op |-> "create", m |-> m, p |-> p, sh |-> Flag(sh), ar |-> ar], Put(ms, m, x), Put(ids, m, z.ids), src, z.reg, z.next)
Accel(m) == LET x == ms[m]  copy == x.sh IN
  /\ ~x.acc /\ ~x.ev
  /\ Do([op |-> "accel", m |-> m], [ms EXCEPT ![m].acc = TRUE], IF copy THEN [ids EXCEPT ![m][1] = next] ELSE ids, IF copy THEN Put(src, m, ids[m][1]) ELSE src, reg, next + Flag(copy))
Evict(m) == Do([op |-> "evict", m |-> m], [ms EXCEPT ![m].ev = TRUE, ![m].acc = FALSE], [ids EXCEPT ![m] = <<>>], Without(src, m), reg, next)
Reload(m, q) == LET x == [ms[m] EXCEPT !.q = q, !.ev = FALSE, !.acc = FALSE]  z == Load(Pieces(Progs, x), x, [ids |-> <<>>, next |-> next, reg |-> reg]) IN
  /\ ms[m].ev /\ Do([op |-> "reload", m |-> m, p |-> q], [ms EXCEPT ![m] = x], Put(ids, m, z.ids), src, z.reg, z.next)
Destroy(m) == Do([op |-> "destroy", m |-> m], Without(ms, m), Without(ids, m), Without(src, m), reg, next)
Free == {m \in Machines : m \notin DOMAIN ms}
Next == /\ Len(path) < Depth
        /\ \/ /\ Free # {} /\ LET m == CHOOSE m \in Free : \A n \in Free : m <= n IN \E p \in Loads, sh \in BOOLEAN, ar \in Arenas : (sh \/ (p = 0 /\ ar = 0)) /\ (ar = 0 \/ p = 0) /\ Create(m, p, sh, ar)
           \/ \E m \in DOMAIN ms : Accel(m) \/ Destroy(m) \/ (~ms[m].ev /\ Evict(m)) \/ \E q \in {0, 1} : Reload(m, q)
Ruled == \A m, n \in DOMAIN ms : m < n => PairOk(Progs, ms[m], ids[m], ms[n], ids[n])
Forgets == /\ \A e \in reg : e.id \in Used(ids, src)
           /\ \A e, f \in reg : (e.at = f.at /\ e.code = f.code /\ e.ar = f.ar) => e = f
View == <<ms, ids, src, reg, next, Len(path)>>
=============================================================================
