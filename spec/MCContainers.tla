---------------------------- MODULE MCContainers ----------------------------
(* How the host builds guest strings and vectors of strings out of heap     *)
(* blocks -- new storage before old is released, elements moved with their  *)
(* storage, temporaries released on failure -- against Containers.tla, with *)
(* every allocation allowed to fail once the heap is (nearly) full. The     *)
(* operations of every transition are printed and replayed on the library.  *)
EXTENDS Containers, TLC, Json
CONSTANTS Depth, Lens, MaxLen, Slots, Emit
VARIABLES want, obj, h, full, path, why
vars == <<want, obj, h, full, path, why>>
\* ---- the heap: blocks are numbers, luck is how many allocations succeed
Lots == 9
Alloc(x) == IF x.luck = 0 THEN [ok |-> FALSE, h |-> x, b |-> 0]
            ELSE LET b == CHOOSE b \in 1..40: b \notin x.live /\ \A c \in 1..40: c < b => c \in x.live IN
                 [ok |-> TRUE, b |-> b, h |-> [x EXCEPT !.live = @ \union {b}, !.luck = IF @ = Lots THEN Lots ELSE @ - 1]]
Free(x, b) == IF b = 0 THEN x ELSE [x EXCEPT !.live = @ \ {b}, !.twice = @ \/ b \notin x.live]
RECURSIVE FreeStrs(_, _, _)
FreeStrs(x, e, i) == IF i > Len(e) THEN x ELSE FreeStrs(Free(x, e[i].b), e, i + 1)
\* ---- strings: [v, b]
Short(v) == [v |-> v, b |-> 0]
SetStr(x, s, v) ==
  IF Len(v) <= Sso THEN [ok |-> TRUE, h |-> Free(x, s.b), s |-> Short(v)]
  ELSE LET a == Alloc(x) IN IF ~a.ok THEN [ok |-> FALSE, h |-> a.h, s |-> s] ELSE [ok |-> TRUE, h |-> Free(a.h, s.b), s |-> [v |-> v, b |-> a.b]]
RECURSIVE MakeStrs(_, _, _)
MakeStrs(x, vals, made) ==
  IF Len(made) = Len(vals) THEN [ok |-> TRUE, h |-> x, e |-> made]
  ELSE LET r == SetStr(x, Short(<<>>), vals[Len(made) + 1]) IN
       IF r.ok THEN MakeStrs(r.h, vals, Append(made, r.s)) ELSE [ok |-> FALSE, h |-> FreeStrs(r.h, made, 1), e |-> <<>>]
\* ---- vectors of strings: e elements, room for cap in block b; ob is the object's own block
NoVec == [e |-> <<>>, cap |-> 0, b |-> 0]
FreeVec(x, v) == Free(FreeStrs(x, v.e, 1), v.b)
MakeVec(x, vals) ==
  IF vals = <<>> THEN [ok |-> TRUE, h |-> x, v |-> NoVec]
  ELSE LET a == Alloc(x) IN
       IF ~a.ok THEN [ok |-> FALSE, h |-> a.h, v |-> NoVec]
       ELSE LET m == MakeStrs(a.h, vals, <<>>) IN
            IF m.ok THEN [ok |-> TRUE, h |-> m.h, v |-> [e |-> m.e, cap |-> Len(vals), b |-> a.b]]
            ELSE [ok |-> FALSE, h |-> Free(m.h, a.b), v |-> NoVec]
Reserve(x, v, n) ==
  IF n <= v.cap THEN [ok |-> TRUE, h |-> x, v |-> v]
  ELSE LET a == Alloc(x) IN IF ~a.ok THEN [ok |-> FALSE, h |-> a.h, v |-> v]
       ELSE [ok |-> TRUE, h |-> Free(a.h, v.b), v |-> [v EXCEPT !.cap = n, !.b = a.b]]
PushVec(x, v, s) ==
  LET r == IF Len(v.e) >= v.cap THEN Reserve(x, v, 2 * v.cap + 4) ELSE [ok |-> TRUE, h |-> x, v |-> v] IN
  IF ~r.ok THEN r
  ELSE LET t == SetStr(r.h, Short(<<>>), s) IN
       IF t.ok THEN [ok |-> TRUE, h |-> t.h, v |-> [r.v EXCEPT !.e = Append(@, t.s)]] ELSE [ok |-> FALSE, h |-> t.h, v |-> r.v]
ResizeVec(x, v, n) ==
  IF n <= Len(v.e) THEN [ok |-> TRUE, h |-> FreeStrs(x, SubSeq(v.e, n + 1, Len(v.e)), 1), v |-> [v EXCEPT !.e = SubSeq(@, 1, n)]]
  ELSE LET r == Reserve(x, v, n) IN IF ~r.ok THEN r ELSE [r EXCEPT !.v.e = Grown(@, n, Short(<<>>))]
\* ---- containers: [k, ob, s] or [k, ob, v]; ob = 0 when moved from
Val(o) == IF o.k = "str" THEN o.s.v ELSE [i \in 1..Len(o.v.e) |-> o.v.e[i].v]
Abs(o) == IF o.ob = 0 THEN Null(o.k) ELSE Obj(o.k, Val(o))
Owned(o) == IF o.ob = 0 THEN <<>> ELSE <<o.ob>> \o (IF o.k = "str" THEN <<o.s.b>> ELSE <<o.v.b>> \o [i \in 1..Len(o.v.e) |-> o.v.e[i].b])
NewObj(x, k, val) ==
  LET a == Alloc(x) IN
  IF ~a.ok THEN [ok |-> FALSE, h |-> a.h]
  ELSE IF k = "str" THEN LET r == SetStr(a.h, Short(<<>>), val) IN IF r.ok THEN [ok |-> TRUE, h |-> r.h, o |-> [k |-> k, ob |-> a.b, s |-> r.s]] ELSE [ok |-> FALSE, h |-> Free(r.h, a.b)]
  ELSE LET r == MakeVec(a.h, val) IN IF r.ok THEN [ok |-> TRUE, h |-> r.h, o |-> [k |-> k, ob |-> a.b, v |-> r.v]] ELSE [ok |-> FALSE, h |-> Free(r.h, a.b)]
Blank(k, b) == IF k = "str" THEN [k |-> k, ob |-> b, s |-> Short(<<>>)] ELSE [k |-> k, ob |-> b, v |-> NoVec]
SetObj(x, o, val) ==
  LET a == IF o.ob # 0 THEN [ok |-> TRUE, h |-> x, b |-> o.ob] ELSE Alloc(x)
      p == IF o.ob # 0 THEN o ELSE Blank(o.k, a.b)
  IN IF ~a.ok THEN [ok |-> FALSE, h |-> a.h, o |-> o]
     ELSE IF o.k = "str" THEN LET r == SetStr(a.h, p.s, val) IN [ok |-> r.ok, h |-> r.h, o |-> [p EXCEPT !.s = r.s]]
     ELSE LET r == MakeVec(a.h, val) IN IF r.ok THEN [ok |-> TRUE, h |-> FreeVec(r.h, p.v), o |-> [p EXCEPT !.v = r.v]] ELSE [ok |-> FALSE, h |-> r.h, o |-> p]
FreeObj(x, o) == IF o.ob = 0 THEN x ELSE Free(IF o.k = "str" THEN Free(x, o.s.b) ELSE FreeVec(x, o.v), o.ob)
\* ---- transitions
Str(n) == [i \in 1..n |-> 65 + n]
Vals(k) == IF k = "str" THEN {Str(n): n \in Lens} ELSE {[i \in 1..m |-> Str(n)]: m \in 0..2, n \in Lens}
LensOf(k, v) == IF k = "str" THEN <<Len(v)>> ELSE [i \in 1..Len(v) |-> Len(v[i])]
Init == want = [i \in {} |-> 0] /\ obj = [i \in {} |-> 0] /\ h = [live |-> {}, luck |-> Lots, twice |-> FALSE] /\ full = FALSE /\ path = <<>> /\ why = ""
Put(f, i, x) == [j \in DOMAIN f \union {i} |-> IF j = i THEN x ELSE f[j]]
Drop(f, i) == [j \in DOMAIN f \ {i} |-> f[j]]
Lucks == IF full THEN 0..3 ELSE {Lots}
Step(o, hh, ob, wa, problem) == /\ h' = [hh EXCEPT !.luck = Lots] /\ obj' = ob /\ want' = wa /\ why' = problem
                                /\ path' = Append(path, o) /\ UNCHANGED full /\ (Emit => PrintT("PATH " \o ToJson(path')))
Judge(k, v, o, ok) == IF ok /\ Senseless(k, v, o) THEN "carried out" ELSE IF ~ok /\ ~MayRefuse(k, v, o, IF full THEN 0 ELSE 1000000) THEN "refused" ELSE ""
P(o, s, more) == [op |-> o, s |-> s] @@ more
New(s, k, val, luck) ==
  LET r == NewObj([h EXCEPT !.luck = luck], k, val)  o == [op |-> "new", val |-> val] IN
  Step(P("new", s, [k |-> k, n |-> LensOf(k, val)]), r.h, IF r.ok THEN Put(obj, s, r.o) ELSE obj, IF r.ok THEN Put(want, s, Obj(k, val)) ELSE want, Judge(k, <<>>, o, r.ok))
\* an operation that yields [ok, h, o]
Change(s, o, label, r) ==
  LET k == want[s].k  v == want[s].v IN
  Step(label, r.h, Put(obj, s, r.o), IF r.ok THEN Put(want, s, Obj(k, Result(k, v, o))) ELSE want, Judge(k, v, o, r.ok))
Set(s, val, luck) == LET k == want[s].k  o == [op |-> "set", val |-> val] IN
  Change(s, o, P("set", s, [n |-> LensOf(k, val)]), LET r == SetObj([h EXCEPT !.luck = luck], obj[s], val) IN IF r.ok \/ obj[s].ob # 0 THEN r ELSE [r EXCEPT !.o = IF r.o.ob = 0 THEN r.o ELSE obj[s], !.h = IF r.o.ob = 0 THEN r.h ELSE Free(r.h, r.o.ob)])
Vec(s, o, label, f) == Change(s, o, label, [ok |-> f.ok, h |-> f.h, o |-> [obj[s] EXCEPT !.v = f.v]])
Lucky(luck) == [h EXCEPT !.luck = luck]
Refuse(s, o, label) == Vec(s, o, label, [ok |-> FALSE, h |-> h, v |-> obj[s].v])
VecOps(s) ==
  LET v == obj[s].v IN \E luck \in Lucks:
  \/ \E n \in Lens: Len(v.e) < MaxLen /\ Vec(s, [op |-> "push", x |-> Str(n)], P("push", s, [n |-> n]), PushVec(Lucky(luck), v, Str(n)))
  \/ Len(v.e) \in 1..(MaxLen - 1) /\ Vec(s, [op |-> "pushown", i |-> 0], P("pushown", s, [i |-> 0]), PushVec(Lucky(luck), v, v.e[1].v))
  \/ luck \in {0, Lots} /\ LET o == [op |-> "pop"] IN IF v.e = <<>> THEN Refuse(s, o, P("pop", s, [i |-> 0])) ELSE Vec(s, o, P("pop", s, [i |-> 0]), ResizeVec(h, v, Len(v.e) - 1))
  \/ luck \in {0, Lots} /\ Vec(s, [op |-> "clear"], P("clear", s, [i |-> 0]), ResizeVec(h, v, 0))
  \/ \E n \in {0, 1, MaxLen}: Vec(s, [op |-> "resize", n |-> n], P("resize", s, [n |-> n]), ResizeVec(Lucky(luck), v, n))
  \/ \E n \in {MaxLen, MaxLen + 3}: Vec(s, [op |-> "reserve", n |-> n], P("reserve", s, [n |-> n]), Reserve(Lucky(luck), v, n))
  \/ \E n \in Lens: LET o == [op |-> "setat", i |-> 0, x |-> Str(n)] IN
       IF v.e = <<>> THEN Refuse(s, o, P("setat", s, [i |-> 0, n |-> n]))
       ELSE LET r == SetStr(Lucky(luck), v.e[1], Str(n)) IN Vec(s, o, P("setat", s, [i |-> 0, n |-> n]), [ok |-> r.ok, h |-> r.h, v |-> [v EXCEPT !.e[1] = r.s]])
\* a part of a string's own contents becomes its contents
StrOps(s) ==
  LET v == obj[s].s IN \E luck \in Lucks: \E n \in {m \in Lens: m <= Len(v.v)}:
    LET r == SetStr(Lucky(luck), v, SubSeq(v.v, Len(v.v) - n + 1, Len(v.v))) IN
    Change(s, [op |-> "setown", i |-> Len(v.v) - n, n |-> n], P("setown", s, [i |-> Len(v.v) - n, n |-> n]), [ok |-> r.ok, h |-> r.h, o |-> [obj[s] EXCEPT !.s = r.s]])
Move(s, t) == s # t /\ want[s].k = want[t].k
  /\ Step(P("move", s, [t |-> t]), FreeObj(h, obj[s]), Put(Put(obj, s, obj[t]), t, Blank(obj[t].k, 0)), Put(Put(want, s, want[t]), t, Null(want[t].k)), "")
Destroy(s) == Step(P("destroy", s, [i |-> 0]), FreeObj(h, obj[s]), Drop(obj, s), Drop(want, s), "")
Fill == /\ full' = ~full /\ path' = Append(path, P(IF full THEN "drain" ELSE "fill", 1, [i |-> 0])) /\ UNCHANGED <<want, obj, h, why>>
Next == /\ Len(path) < Depth
        /\ \/ \E s \in Slots \ DOMAIN obj: (\A t \in Slots: t < s => t \in DOMAIN obj) /\ \E k \in {"str", "vs"}: \E val \in Vals(k): \E luck \in Lucks: New(s, k, val, luck)
           \/ \E s \in DOMAIN obj: \/ Destroy(s)
                                   \/ \E t \in DOMAIN obj: Move(s, t)
                                   \/ \E val \in Vals(want[s].k): \E luck \in Lucks: Set(s, val, luck)
                                   \/ obj[s].ob # 0 /\ IF obj[s].k = "vs" THEN VecOps(s) ELSE StrOps(s)
           \/ Fill
Spec == Init /\ [][Next]_vars
RECURSIVE AllOwned(_)
AllOwned(d) == IF d = {} THEN <<>> ELSE LET s == CHOOSE s \in d: TRUE IN Owned(obj[s]) \o AllOwned(d \ {s})
\* contents are those of ordinary containers
Faithful == why = "" /\ DOMAIN obj = DOMAIN want /\ \A s \in DOMAIN obj: Abs(obj[s]) = want[s]
\* every live block has exactly one owner, and nothing was freed twice
OwnedOnce == LET q == SelectSeq(AllOwned(DOMAIN obj), LAMBDA b: b # 0) IN
             /\ ~h.twice /\ h.live = {q[i]: i \in DOMAIN q} /\ \A i, j \in DOMAIN q: i # j => q[i] # q[j]
Fits == \A s \in DOMAIN obj: obj[s].k = "vs" => Len(obj[s].v.e) <= obj[s].v.cap /\ (obj[s].v.cap > 0 => obj[s].v.b # 0)
View == <<want, obj, h.live, full, why>>
=============================================================================
