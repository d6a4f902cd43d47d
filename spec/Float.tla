-------------------------------- MODULE Float --------------------------------
(* IEEE 754 binary32 and binary64 arithmetic, rounding to nearest even,      *)
(* computed exactly: a finite value is (-1)^s * M * 2^e with a natural M of  *)
(* any length (little-endian limbs of 12 bits), and each operation rounds    *)
(* its exact result once.  Bit patterns are the 8-byte words of Word; a      *)
(* single precision value occupies the first four bytes.                     *)
(* Float laws are checked by MCFloat.tla.                                    *)
EXTENDS Word, TLC

LB == 4096
Pw == <<1,2,4,8,16,32,64,128,256,512,1024,2048,4096>>
----------------------------------------------------------------------------
(* naturals of any length *)
At(a, i) == IF i >= 1 /\ i <= Len(a) THEN a[i] ELSE 0
RECURSIVE NLen(_, _)
NLen(a, n) == IF n = 0 THEN 0 ELSE IF a[n] # 0 THEN n ELSE NLen(a, n - 1)
RECURSIVE BitsOf(_)
BitsOf(x) == IF x = 0 THEN 0 ELSE 1 + BitsOf(x \div 2)
BitLen(a) == LET n == NLen(a, Len(a)) IN IF n = 0 THEN 0 ELSE 12 * (n - 1) + BitsOf(a[n])
NZero(a) == NLen(a, Len(a)) = 0
RECURSIVE NAddR(_, _, _, _, _, _)
NAddR(a, b, i, n, c, acc) == IF i > n THEN (IF c = 0 THEN acc ELSE Append(acc, c))
  ELSE LET t == At(a, i) + At(b, i) + c IN NAddR(a, b, i + 1, n, t \div LB, Append(acc, t % LB))
Max2(x, y) == IF x > y THEN x ELSE y
Min2(x, y) == IF x < y THEN x ELSE y
NAdd(a, b) == NAddR(a, b, 1, Max2(Len(a), Len(b)), 0, <<>>)
RECURSIVE NSubR(_, _, _, _, _)
NSubR(a, b, i, c, acc) == IF i > Len(a) THEN acc
  ELSE LET t == a[i] - At(b, i) - c IN NSubR(a, b, i + 1, IF t < 0 THEN 1 ELSE 0, Append(acc, IF t < 0 THEN t + LB ELSE t))
NSub(a, b) == NSubR(a, b, 1, 0, <<>>)      \* a >= b
RECURSIVE NLtR(_, _, _)
NLtR(a, b, i) == IF i = 0 THEN FALSE ELSE IF At(a, i) # At(b, i) THEN At(a, i) < At(b, i) ELSE NLtR(a, b, i - 1)
NLt(a, b) == NLtR(a, b, Max2(Len(a), Len(b)))
RECURSIVE NShlR(_, _, _, _, _, _)
NShlR(a, q, m, i, n, acc) == IF i > n THEN acc
  ELSE NShlR(a, q, m, i + 1, n, Append(acc, ((At(a, i - q) * m) % LB) + (At(a, i - q - 1) * m) \div LB))
NShl(a, k) == NShlR(a, k \div 12, Pw[(k % 12) + 1], 1, Len(a) + (k \div 12) + 1, <<>>)
RECURSIVE NShrR(_, _, _, _, _, _)
NShrR(a, q, m, i, n, acc) == IF i > n THEN acc
  ELSE NShrR(a, q, m, i + 1, n, Append(acc, (At(a, i + q) \div m) + ((At(a, i + q + 1) * (LB \div m)) % LB)))
NShr(a, k) == IF k \div 12 >= Len(a) THEN <<>> ELSE NShrR(a, k \div 12, Pw[(k % 12) + 1], 1, Len(a) - (k \div 12), <<>>)
NBit(a, i) == (At(a, (i \div 12) + 1) \div Pw[(i % 12) + 1]) % 2
\* are any of the low k bits set?
LowSet(a, k) == \/ \E i \in 1..Min2(k \div 12, Len(a)) : a[i] # 0
                \/ At(a, (k \div 12) + 1) % Pw[(k % 12) + 1] # 0
RECURSIVE NMulC(_, _, _, _)
NMulC(a, b, k, i) == IF i > Min2(Len(a), k) THEN 0 ELSE a[i] * At(b, k + 1 - i) + NMulC(a, b, k, i + 1)
RECURSIVE NMulR(_, _, _, _, _, _)
NMulR(a, b, k, n, c, acc) == IF k > n THEN acc
  ELSE LET t == NMulC(a, b, k, 1) + c IN NMulR(a, b, k + 1, n, t \div LB, Append(acc, t % LB))
NMul(a, b) == NMulR(a, b, 1, Len(a) + Len(b), 0, <<>>)
\* a / b by limbs from the top (b # 0): <<quotient, remainder is not zero>>
RECURSIVE NMul1R(_, _, _, _, _)
NMul1R(a, q, i, c, acc) == IF i > Len(a) THEN Append(acc, c)
  ELSE LET t == a[i] * q + c IN NMul1R(a, q, i + 1, t \div LB, Append(acc, t % LB))
NMul1(a, q) == NMul1R(a, q, 1, 0, <<>>)
RECURSIVE Guess(_, _, _)     \* the largest digit not above g whose multiple of b fits in r
Guess(r, b, g) == LET p == NMul1(b, g) IN IF NLt(r, p) THEN Guess(r, b, g - 1) ELSE <<g, NSub(r, SubSeq(p, 1, Len(r)))>>
RECURSIVE NDivR(_, _, _, _, _)
NDivR(a, b, i, q, r) == IF i = 0 THEN <<q, ~NZero(r)>>
  ELSE LET n == Len(b)
           r1 == SubSeq(<<a[i]>> \o r, 1, n + 1)
           g == Guess(r1, b, Min2(LB - 1, (At(r1, n + 1) * LB + r1[n]) \div b[n]))
       IN NDivR(a, b, i - 1, TLCEval(<<g[1]>> \o q), TLCEval(SubSeq(g[2], 1, n)))
NDivMod(a, b) == LET n == NLen(b, Len(b))
                     s == 12 - BitsOf(b[n])
                 IN NDivR(NShl(a, s), SubSeq(NShl(b, s), 1, n), Len(a) + 1, <<>>, [i \in 1..n |-> 0])

----------------------------------------------------------------------------
(* bit patterns *)
Prec(d) == IF d THEN 53 ELSE 24
QMin(d) == IF d THEN -1074 ELSE -149       \* exponent of the smallest positive value
EMax(d) == IF d THEN 2047 ELSE 255
ExpOf(v, d) == IF d THEN (v[8] % 128) * 16 + (v[7] \div 16) ELSE (v[4] % 128) * 2 + (v[3] \div 128)
FracOf(v, d) == IF d THEN <<v[1] + 256 * (v[2] % 16), (v[2] \div 16) + 16 * v[3], v[4] + 256 * (v[5] % 16), (v[5] \div 16) + 16 * v[6], v[7] % 16>>
                ELSE <<v[1] + 256 * (v[2] % 16), (v[2] \div 16) + 16 * (v[3] % 128)>>
SgnOf(v, d) == IF d THEN v[8] \div 128 ELSE v[4] \div 128
Unpack(v, d) ==
  LET x == ExpOf(v, d)  f == FracOf(v, d)  s == SgnOf(v, d) IN
  IF x = EMax(d) THEN [k |-> IF NZero(f) THEN "inf" ELSE "nan", s |-> s, m |-> <<>>, e |-> 0]
  ELSE IF x = 0 THEN [k |-> "num", s |-> s, m |-> f, e |-> QMin(d)]
  ELSE [k |-> "num", s |-> s, m |-> IF d THEN [f EXCEPT ![5] = @ + 16] ELSE [f EXCEPT ![2] = @ + 2048], e |-> QMin(d) + x - 1]
\* the word with sign s, exponent field x and fraction limbs f (the hidden bit is ignored)
PackF(s, x, f, d) ==
  IF d THEN <<At(f, 1) % 256, (At(f, 1) \div 256) + 16 * (At(f, 2) % 16), At(f, 2) \div 16, At(f, 3) % 256, (At(f, 3) \div 256) + 16 * (At(f, 4) % 16),
              At(f, 4) \div 16, (At(f, 5) % 16) + 16 * (x % 16), (x \div 16) + 128 * s>>
  ELSE <<At(f, 1) % 256, (At(f, 1) \div 256) + 16 * (At(f, 2) % 16), ((At(f, 2) \div 16) % 128) + 128 * (x % 2), (x \div 2) + 128 * s, 0, 0, 0, 0>>
InfW(s, d) == PackF(s, EMax(d), <<0>>, d)
ZeroW(s, d) == PackF(s, 0, <<0>>, d)
NaNW(d) == PackF(0, EMax(d), IF d THEN <<0,0,0,0,8>> ELSE <<0,1024>>, d)   \* stands for any quiet NaN
IsNaNW(v, d) == Unpack(v, d).k = "nan"
\* the nearest value to (-1)^s * (m + t) * 2^e, where 0 < t < 1 when sticky; ties go to even
RoundTo(s, m, e, sticky, d) ==
  LET n == BitLen(m) IN
  IF n = 0 THEN ZeroW(s, d)
  ELSE LET q == Max2(e + n - Prec(d), QMin(d))
           k == q - e
           m1 == IF k <= 0 THEN NShl(m, -k) ELSE NShr(m, k)
           up == k > 0 /\ NBit(m, k - 1) = 1 /\ (sticky \/ LowSet(m, k - 1) \/ NBit(m1, 0) = 1)
           m2 == IF up THEN NAdd(m1, <<1>>) ELSE m1
           wide == BitLen(m2) > Prec(d)
           m3 == IF wide THEN NShr(m2, 1) ELSE m2
           q3 == IF wide THEN q + 1 ELSE q
           x == IF BitLen(m3) < Prec(d) THEN 0 ELSE q3 - QMin(d) + 1
       IN IF x >= EMax(d) THEN InfW(s, d) ELSE PackF(s, x, m3, d)

----------------------------------------------------------------------------
(* operations on unpacked operands *)
Flip(a) == [a EXCEPT !.s = 1 - @]
Finite(a) == a.k = "num"
Z(a) == a.k = "num" /\ NZero(a.m)
Lead(a) == a.e + BitLen(a.m) - 1
\* exact sum of two finite non-zero values, rounded once; a far smaller operand only breaks ties
SumNZ(a, b, d) ==
  LET tiny(x, y) == Lead(x) < y.e - 60
      a1 == IF tiny(a, b) THEN [a EXCEPT !.m = <<1>>, !.e = b.e - 60] ELSE a
      b1 == IF tiny(b, a) THEN [b EXCEPT !.m = <<1>>, !.e = a.e - 60] ELSE b
      e == Min2(a1.e, b1.e)
      ma == NShl(a1.m, a1.e - e)
      mb == NShl(b1.m, b1.e - e)
  IN IF a.s = b.s THEN RoundTo(a.s, NAdd(ma, mb), e, FALSE, d)
     ELSE IF NLt(ma, mb) THEN RoundTo(b.s, NSub(mb, ma), e, FALSE, d)
     ELSE IF NLt(mb, ma) THEN RoundTo(a.s, NSub(ma, mb), e, FALSE, d)
     ELSE ZeroW(0, d)
Sum(a, b, d) ==
  IF a.k = "nan" \/ b.k = "nan" THEN NaNW(d)
  ELSE IF a.k = "inf" THEN (IF b.k = "inf" /\ a.s # b.s THEN NaNW(d) ELSE InfW(a.s, d))
  ELSE IF b.k = "inf" THEN InfW(b.s, d)
  ELSE IF Z(a) /\ Z(b) THEN ZeroW(IF a.s = b.s THEN a.s ELSE 0, d)
  ELSE IF Z(a) THEN RoundTo(b.s, b.m, b.e, FALSE, d)
  ELSE IF Z(b) THEN RoundTo(a.s, a.m, a.e, FALSE, d)
  ELSE SumNZ(a, b, d)
\* the exact product, not rounded
Prod(a, b) ==
  LET s == (a.s + b.s) % 2 IN
  IF a.k = "nan" \/ b.k = "nan" \/ (a.k = "inf" /\ Z(b)) \/ (b.k = "inf" /\ Z(a)) THEN [k |-> "nan", s |-> 0, m |-> <<>>, e |-> 0]
  ELSE IF a.k = "inf" \/ b.k = "inf" THEN [k |-> "inf", s |-> s, m |-> <<>>, e |-> 0]
  ELSE [k |-> "num", s |-> s, m |-> NMul(a.m, b.m), e |-> a.e + b.e]
RoundU(a, d) == CASE a.k = "nan" -> NaNW(d) [] a.k = "inf" -> InfW(a.s, d) [] OTHER -> RoundTo(a.s, a.m, a.e, FALSE, d)
Quot(a, b, d) ==
  LET s == (a.s + b.s) % 2 IN
  IF a.k = "nan" \/ b.k = "nan" \/ (a.k = "inf" /\ b.k = "inf") \/ (Z(a) /\ Z(b)) THEN NaNW(d)
  ELSE IF a.k = "inf" \/ Z(b) THEN InfW(s, d)
  ELSE IF b.k = "inf" \/ Z(a) THEN ZeroW(s, d)
  ELSE LET k == Max2(0, Prec(d) + 3 + BitLen(b.m) - BitLen(a.m))
           n == NShl(a.m, k)
           qr == NDivMod(n, b.m)
       IN RoundTo(s, qr[1], a.e - k - b.e, qr[2], d)

FAdd(a, b, d) == Sum(Unpack(a, d), Unpack(b, d), d)
FSub(a, b, d) == Sum(Unpack(a, d), Flip(Unpack(b, d)), d)
FMul(a, b, d) == RoundU(Prod(Unpack(a, d), Unpack(b, d)), d)
FDiv(a, b, d) == Quot(Unpack(a, d), Unpack(b, d), d)
FusedMA(a, b, c, d) == Sum(Prod(Unpack(a, d), Unpack(b, d)), Unpack(c, d), d)     \*  a*b + c
FusedMS(a, b, c, d) == Sum(Prod(Unpack(a, d), Unpack(b, d)), Flip(Unpack(c, d)), d) \* a*b - c
\* change the sign of a result (a NaN stays any NaN)
NegR(v, d) == IF d THEN [v EXCEPT ![8] = (@ + 128) % 256] ELSE [v EXCEPT ![4] = (@ + 128) % 256]
FNegR(v, d) == IF IsNaNW(v, d) THEN v ELSE NegR(v, d)
Convert(v, from, to) == RoundU(Unpack(v, from), to)
\* a signed integer given as a word
LimbsOf(w) == <<w[1] + 256 * (w[2] % 16), (w[2] \div 16) + 16 * w[3], w[4] + 256 * (w[5] % 16), (w[5] \div 16) + 16 * w[6], w[7] + 256 * (w[8] % 16), w[8] \div 16>>
FromInt(w, d) == RoundTo(IF IsNeg(w) THEN 1 ELSE 0, LimbsOf(Abs(w)), 0, FALSE, d)
OfLimbs(f) == <<At(f, 1) % 256, (At(f, 1) \div 256) + 16 * (At(f, 2) % 16), At(f, 2) \div 16, At(f, 3) % 256, (At(f, 3) \div 256) + 16 * (At(f, 4) % 16),
                At(f, 4) \div 16, At(f, 5) % 256, (At(f, 5) \div 256) + 16 * (At(f, 6) % 16)>>
\* truncation to a signed integer of n bits (32 or 64): out of range saturates, NaN gives zero
MaxInt(n) == IF n = 64 THEN <<255,255,255,255,255,255,255,127>> ELSE <<255,255,255,127,0,0,0,0>>
MinInt(n) == IF n = 64 THEN <<0,0,0,0,0,0,0,128>> ELSE <<0,0,0,128,255,255,255,255>>
ToIntRZ(v, d, n) ==
  LET a == Unpack(v, d) IN
  IF a.k = "nan" THEN Zero
  ELSE IF a.k = "inf" THEN (IF a.s = 0 THEN MaxInt(n) ELSE MinInt(n))
  ELSE IF Z(a) THEN Zero
  ELSE IF Lead(a) >= n THEN (IF a.s = 0 THEN MaxInt(n) ELSE MinInt(n))
  ELSE LET i == OfLimbs(IF a.e >= 0 THEN NShl(a.m, a.e) ELSE NShr(a.m, -a.e)) IN
       IF a.s = 0 THEN (IF ULt(MaxInt(n), i) THEN MaxInt(n) ELSE i)
       ELSE IF ULt(Neg(MinInt(n)), i) THEN MinInt(n) ELSE Neg(i)
\* IEEE 754-2008 maxNum / minNum: the set of acceptable results (NaNW stands for any quiet NaN)
SigNaN(v, d) == IsNaNW(v, d) /\ (IF d THEN (v[7] \div 8) % 2 = 0 ELSE (v[3] \div 64) % 2 = 0)
MagOf(v, d) == IF d THEN [v EXCEPT ![8] = @ % 128] ELSE <<v[1], v[2], v[3], v[4] % 128, 0, 0, 0, 0>>
LtF(a, b, d) == LET x == MagOf(a, d)  y == MagOf(b, d)  sa == SgnOf(a, d)  sb == SgnOf(b, d) IN
  IF x = Zero /\ y = Zero THEN FALSE ELSE IF sa # sb THEN sa = 1 ELSE IF sa = 1 THEN ULt(y, x) ELSE ULt(x, y)
Low(v, d) == IF d THEN v ELSE Zext32(v)
MaxSet(a0, b0, d, min) ==
  LET a == Low(a0, d)  b == Low(b0, d)
      na == IsNaNW(a, d)  nb == IsNaNW(b, d) IN
  IF SigNaN(a, d) \/ SigNaN(b, d) THEN {NaNW(d)} \cup (IF na THEN {} ELSE {a}) \cup (IF nb THEN {} ELSE {b})
  ELSE IF na /\ nb THEN {NaNW(d)}
  ELSE IF na THEN {b} ELSE IF nb THEN {a}
  ELSE IF MagOf(a, d) = Zero /\ MagOf(b, d) = Zero THEN {a, b}
  ELSE IF LtF(a, b, d) # min THEN {b} ELSE {a}
=============================================================================
