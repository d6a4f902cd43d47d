------------------------------- MODULE MCFloat -------------------------------
(* Float against laws that do not depend on how it is computed: small       *)
(* integers are exact, operations commute, rounding picks the nearest of    *)
(* the two neighbours and the even one on a tie, and known results of the   *)
(* standard hold.                                                           *)
EXTENDS Float, SequencesExt
VARIABLE x
CONSTANT Full
Ints == IF Full THEN (-40..40) \cup {127, 128, 255, 4095, 4096, 4097, 30000, -30001} ELSE (-3..3) \cup {5, 7, -10, 12, 23, 127, 128, 4095, -4096, 4097, 30000, -30001}
F(i, d) == FromInt(OfInt(i), d)
One(d) == F(1, d)
Next1(v, d) == LET w == AddInt(v, 1) IN IF d THEN w ELSE Zext32(w)   \* next larger magnitude
Big(d) == IF d THEN <<255,255,255,255,255,255,239,127>> ELSE <<255,255,127,127,0,0,0,0>>
Tiny == OfInt(1)
Pats(d) == {ZeroW(0, d), ZeroW(1, d), One(d), NegR(One(d), d), Tiny, NegR(Tiny, d), Big(d), NegR(Big(d), d), InfW(0, d), InfW(1, d), NaNW(d), F(3, d), F(10, d), F(-7, d),
            Next1(One(d), d), FDiv(One(d), F(3, d), d), FDiv(F(10, d), F(3, d), d), FSub(One(d), FDiv(One(d), F(1024, d), d), d),
            IF d THEN <<1,0,0,0,0,0,16,0>> ELSE <<1,0,128,0,0,0,0,0>>, IF d THEN <<255,255,255,255,255,255,15,0>> ELSE <<255,255,127,0,0,0,0,0>>,
            IF d THEN <<85,85,85,85,85,85,213,63>> ELSE <<171,170,170,62,0,0,0,0>>}
Init == x \in ({"i"} \X Ints \X BOOLEAN \X {0}) \cup ({"p"} \X (1..20) \X BOOLEAN \X {0})
Next == x[4] = 0 /\ x' = [x EXCEPT ![4] = 1]   \* laws are evaluated in the second state, so that workers share them
SameF(a, b, d) == a = b \/ (IsNaNW(a, d) /\ IsNaNW(b, d))
IntLaws(i, d) ==
  /\ ToIntRZ(F(i, d), d, 64) = OfInt(i) /\ ToIntRZ(F(i, d), d, 32) = OfInt(i)
  /\ \A j \in Ints : /\ FAdd(F(i, d), F(j, d), d) = F(i + j, d)
                     /\ FSub(F(i, d), F(j, d), d) = F(i - j, d)
                     /\ SameF(FMul(F(i, d), F(j, d), d), IF i * j = 0 THEN ZeroW(IF (i < 0) # (j < 0) THEN 1 ELSE 0, d) ELSE IF d \/ (i * j < 16777216 /\ i * j > -16777216) THEN F(i * j, d) ELSE FMul(F(j, d), F(i, d), d), d)
                     /\ (j # 0 /\ i # 0) => FDiv(FMul(F(i, TRUE), F(j, TRUE), TRUE), F(j, TRUE), TRUE) = F(i, TRUE)
                     /\ LtF(F(i, d), F(j, d), d) <=> i < j
                     /\ (j # 0 /\ i > 0 /\ j > 0) => ToIntRZ(FDiv(F(i, d), F(j, d), d), d, 32) = OfInt(i \div j)
                     /\ \A k \in {1, -77} : (d \/ (i * j + k < 16777216 /\ i * j + k > -16777216)) /\ i * j # 0 /\ i * j + k # 0 => FusedMA(F(i, d), F(j, d), F(k, d), d) = F(i * j + k, d)
Seqn(d) == SetToSeq(Pats(d))
PatLaws(a, d) ==
  /\ SameF(FMul(a, One(d), d), a, d) /\ SameF(FDiv(a, One(d), d), a, d)
  /\ SameF(FSub(a, ZeroW(0, d), d), a, d)
  /\ SameF(Convert(Convert(a, d, TRUE), TRUE, d), a, d)
  /\ \A b \in Pats(d) :
       /\ SameF(FAdd(a, b, d), FAdd(b, a, d), d) /\ SameF(FMul(a, b, d), FMul(b, a, d), d)
       /\ SameF(FSub(a, b, d), FAdd(a, IF IsNaNW(b, d) THEN b ELSE NegR(b, d), d), d)
       /\ SameF(FusedMA(a, One(d), b, d), FAdd(a, b, d), d)
       /\ SameF(FusedMS(a, One(d), b, d), FSub(a, b, d), d)
       /\ (~IsNaNW(FMul(a, b, d), d) /\ FMul(a, b, d) # ZeroW(0, d) /\ FMul(a, b, d) # ZeroW(1, d)) => SameF(FusedMA(a, b, ZeroW(0, d), d), FMul(a, b, d), d)
       \* rounding: no neighbour of the rounded quotient is closer to the exact one (checked on the residual a - q*b, exact through the fused operation)
       /\ LET q == FDiv(a, b, d)
              u == Unpack(q, d)  ua == Unpack(a, d)  ub == Unpack(b, d)
          IN (u.k = "num" /\ ~Z(u) /\ ua.k = "num" /\ ub.k = "num" /\ ~Z(ua) /\ ~Z(ub) /\ ExpOf(q, d) > 1 /\ ExpOf(a, d) > 60 /\ ExpOf(b, d) > 60 /\ ExpOf(q, d) < EMax(d) - 1 /\ ExpOf(a, d) + 60 < EMax(d)) =>
               LET r == FusedMS(q, b, a, d)            \* q*b - a
                   r1 == FusedMS(Next1(q, d), b, a, d)
               IN ~LtF(MagOf(r1, d), MagOf(r, d), d)
Known ==
  /\ FAdd(One(TRUE), <<0,0,0,0,0,0,160,60>>, TRUE) = One(TRUE)                               \* 1 + 2^-53: tie to even
  /\ FAdd(Next1(One(TRUE), TRUE), <<0,0,0,0,0,0,160,60>>, TRUE) = AddInt(One(TRUE), 2)
  /\ FMul(Tiny, <<0,0,0,0,0,0,224,63>>, TRUE) = ZeroW(0, TRUE)                               \* smallest * 0.5: tie to even
  /\ FMul(OfInt(3), <<0,0,0,0,0,0,224,63>>, TRUE) = OfInt(2)
  /\ FMul(Big(TRUE), F(2, TRUE), TRUE) = InfW(0, TRUE)
  /\ FDiv(One(TRUE), F(3, TRUE), TRUE) = <<85,85,85,85,85,85,213,63>>
  /\ FDiv(One(TRUE), F(10, TRUE), TRUE) = <<154,153,153,153,153,153,185,63>>
  /\ FDiv(One(FALSE), F(10, FALSE), FALSE) = <<205,204,204,61,0,0,0,0>>
  /\ Convert(<<154,153,153,153,153,153,185,63>>, TRUE, FALSE) = <<205,204,204,61,0,0,0,0>>
  /\ Convert(Big(TRUE), TRUE, FALSE) = InfW(0, FALSE) /\ Convert(Tiny, TRUE, FALSE) = ZeroW(0, FALSE)
  /\ ToIntRZ(NaNW(TRUE), TRUE, 32) = Zero /\ ToIntRZ(Big(TRUE), TRUE, 32) = MaxInt(32) /\ ToIntRZ(NegR(Big(TRUE), TRUE), TRUE, 64) = MinInt(64)
  /\ FromInt(<<255,255,255,255,255,255,255,127>>, TRUE) = <<0,0,0,0,0,0,224,67>>
  /\ FusedMS(Next1(One(TRUE), TRUE), Next1(One(TRUE), TRUE), AddInt(One(TRUE), 2), TRUE) = <<0,0,0,0,0,0,112,57>>   \* (1+u)^2 - (1+2u) = u^2 = 2^-104
  /\ IsNaNW(FSub(InfW(0, TRUE), InfW(0, TRUE), TRUE), TRUE) /\ IsNaNW(FMul(InfW(0, TRUE), ZeroW(0, TRUE), TRUE), TRUE)
Laws == x[4] = 1 =>
        /\ Known
        /\ IF x[1] = "i" THEN IntLaws(x[2], x[3]) ELSE PatLaws(Seqn(x[3])[x[2]], x[3])
=============================================================================
