------------------------------ MODULE MCMemory ------------------------------
(* The memory model itself, exhaustively, on a four byte arena: whatever    *)
(* sequence of host and guest writes is made, at whatever address and       *)
(* length, the bytes below the writable part keep their loaded contents,    *)
(* a refused access changes nothing, and an accepted one is read back.      *)
EXTENDS Memory, TLC
Arenas == {x \in [size : {4}, ro : 0..3, rw : 0..3] : x.ro <= x.rw}
One == 1
Vals == {0, 1}
VARIABLES ar, mem, first, last
vars == <<ar, mem, first, last>>
Init == /\ ar \in Arenas /\ mem \in {[i \in 1..(4 + Margin) |-> i % 2], [i \in 1..(4 + Margin) |-> 0]} /\ first = mem /\ last = [kind |-> "none", at |-> Zero, data |-> <<>>]
\* all addresses around the arena, and some that wrap
Addr == {OfInt(i) : i \in -2..6} \cup {<<0,0,0,0,1,0,0,0>>, <<3,0,0,128,0,0,0,0>>}
Datas == UNION {[1..n -> Vals] : n \in 0..3}
Scalar(a, d) == /\ CanWrite(ar, a) /\ mem' = Poke(mem, ToInt(a), d) /\ last' = [kind |-> "write", at |-> a, data |-> d]
Copy(a, d) == /\ RangeOutcome(ar, ar.rw, a, OfInt(Len(d))) = Yes /\ mem' = Poke(mem, ToInt(a), d) /\ last' = [kind |-> "write", at |-> a, data |-> d]
Set(a, n, v) == /\ RangeOutcome(ar, ar.rw, a, n) = Yes /\ mem' = Fill(mem, ToInt(a), ToInt(n), v) /\ last' = [kind |-> "write", at |-> a, data |-> [i \in 1..ToInt(n) |-> v]]
Refused(a, n) == /\ RangeOutcome(ar, ar.rw, a, n) = No /\ mem' = mem /\ last' = [kind |-> "refused", at |-> a, data |-> <<>>]
View == <<ar, mem, first, last>>
Next == /\ UNCHANGED <<ar, first>>
        /\ \E a \in Addr :
             \/ \E d \in [1..2 -> Vals] : Scalar(a, d)
             \/ \E d \in Datas : Copy(a, d)
             \/ \E n \in Addr, v \in Vals : Set(a, n, v) \/ Refused(a, n)
LoadedStays == \A i \in 1..ar.rw : mem[i] = first[i]
ReadBack == last.kind = "write" => Peek(mem, ToInt(last.at), Len(last.data)) = last.data
\* an accepted range never leaves the arena, an accepted scalar never leaves the margin
Inside == \A a \in Addr, n \in Addr : RangeOutcome(ar, ar.rw, a, n) = Yes => ToInt(a) >= ar.rw /\ ToInt(a) + ToInt(n) <= ar.size
=============================================================================
