-------------------------------- MODULE Word --------------------------------
(* 64-bit machine words as little-endian tuples of eight bytes.             *)
(* TLC integers are 32 bits wide, so wide words never become integers.      *)
(* The laws relating these operators to integer arithmetic are checked by   *)
(* MCWord.tla.                                                              *)
EXTENDS Integers, Sequences, Bitwise

B == 0..255
Zero == <<0,0,0,0,0,0,0,0>>
Ones == <<255,255,255,255,255,255,255,255>>

(* --- conversion ------------------------------------------------------- *)
\* any TLC integer (sign-extended to 64 bits)
OfInt(i) == LET s == IF i < 0 THEN 255 ELSE 0
                b1 == i % 256   q1 == (i - b1) \div 256
                b2 == q1 % 256  q2 == (q1 - b2) \div 256
                b3 == q2 % 256  q3 == (q2 - b3) \div 256
            IN <<b1, b2, b3, q3 % 256, s, s, s, s>>
\* does the word denote a natural number that fits a TLC integer?
IsSmall(w) == w[4] < 128 /\ w[5] = 0 /\ w[6] = 0 /\ w[7] = 0 /\ w[8] = 0
ToInt(w) == w[1] + 256 * w[2] + 65536 * w[3] + 16777216 * w[4]

(* --- comparison ------------------------------------------------------- *)
IsNeg(w) == w[8] >= 128
IsZero(w) == w = Zero
ULt(a, b) ==
  IF a[8] # b[8] THEN a[8] < b[8] ELSE IF a[7] # b[7] THEN a[7] < b[7] ELSE
  IF a[6] # b[6] THEN a[6] < b[6] ELSE IF a[5] # b[5] THEN a[5] < b[5] ELSE
  IF a[4] # b[4] THEN a[4] < b[4] ELSE IF a[3] # b[3] THEN a[3] < b[3] ELSE
  IF a[2] # b[2] THEN a[2] < b[2] ELSE a[1] < b[1]
SLt(a, b) == IF IsNeg(a) # IsNeg(b) THEN IsNeg(a) ELSE ULt(a, b)

(* --- logic ------------------------------------------------------------ *)
BAnd(a, b) == <<a[1]&b[1], a[2]&b[2], a[3]&b[3], a[4]&b[4], a[5]&b[5], a[6]&b[6], a[7]&b[7], a[8]&b[8]>>
BOr(a, b)  == <<a[1]|b[1], a[2]|b[2], a[3]|b[3], a[4]|b[4], a[5]|b[5], a[6]|b[6], a[7]|b[7], a[8]|b[8]>>
BXor(a, b) == <<a[1]^^b[1], a[2]^^b[2], a[3]^^b[3], a[4]^^b[4], a[5]^^b[5], a[6]^^b[6], a[7]^^b[7], a[8]^^b[8]>>
BNot(a) == <<255-a[1], 255-a[2], 255-a[3], 255-a[4], 255-a[5], 255-a[6], 255-a[7], 255-a[8]>>

(* --- addition, subtraction -------------------------------------------- *)
AddC(a, b, c) ==
  LET s1 == a[1]+b[1]+c
      s2 == a[2]+b[2]+(s1 \div 256)
      s3 == a[3]+b[3]+(s2 \div 256)
      s4 == a[4]+b[4]+(s3 \div 256)
      s5 == a[5]+b[5]+(s4 \div 256)
      s6 == a[6]+b[6]+(s5 \div 256)
      s7 == a[7]+b[7]+(s6 \div 256)
      s8 == a[8]+b[8]+(s7 \div 256)
  IN <<s1%256, s2%256, s3%256, s4%256, s5%256, s6%256, s7%256, s8%256>>
Add(a, b) == AddC(a, b, 0)
Sub(a, b) == AddC(a, BNot(b), 1)
Neg(a) == AddC(BNot(a), Zero, 1)
AddInt(a, i) == Add(a, OfInt(i))

(* --- multiplication --------------------------------------------------- *)
Col(a, b, k) == \* sum of a[i]*b[j] with i+j = k+1
  CASE k = 1 -> a[1]*b[1]
    [] k = 2 -> a[1]*b[2]+a[2]*b[1]
    [] k = 3 -> a[1]*b[3]+a[2]*b[2]+a[3]*b[1]
    [] k = 4 -> a[1]*b[4]+a[2]*b[3]+a[3]*b[2]+a[4]*b[1]
    [] k = 5 -> a[1]*b[5]+a[2]*b[4]+a[3]*b[3]+a[4]*b[2]+a[5]*b[1]
    [] k = 6 -> a[1]*b[6]+a[2]*b[5]+a[3]*b[4]+a[4]*b[3]+a[5]*b[2]+a[6]*b[1]
    [] k = 7 -> a[1]*b[7]+a[2]*b[6]+a[3]*b[5]+a[4]*b[4]+a[5]*b[3]+a[6]*b[2]+a[7]*b[1]
    [] k = 8 -> a[1]*b[8]+a[2]*b[7]+a[3]*b[6]+a[4]*b[5]+a[5]*b[4]+a[6]*b[3]+a[7]*b[2]+a[8]*b[1]
    [] k = 9 -> a[2]*b[8]+a[3]*b[7]+a[4]*b[6]+a[5]*b[5]+a[6]*b[4]+a[7]*b[3]+a[8]*b[2]
    [] k = 10 -> a[3]*b[8]+a[4]*b[7]+a[5]*b[6]+a[6]*b[5]+a[7]*b[4]+a[8]*b[3]
    [] k = 11 -> a[4]*b[8]+a[5]*b[7]+a[6]*b[6]+a[7]*b[5]+a[8]*b[4]
    [] k = 12 -> a[5]*b[8]+a[6]*b[7]+a[7]*b[6]+a[8]*b[5]
    [] k = 13 -> a[6]*b[8]+a[7]*b[7]+a[8]*b[6]
    [] k = 14 -> a[7]*b[8]+a[8]*b[7]
    [] k = 15 -> a[8]*b[8]
    [] OTHER -> 0
RECURSIVE MulCols(_, _, _, _, _, _)
MulCols(a, b, k, n, carry, acc) ==
  IF k > n THEN acc
  ELSE LET s == Col(a, b, k) + carry
       IN MulCols(a, b, k + 1, n, s \div 256, Append(acc, s % 256))
Mul(a, b) == MulCols(a, b, 1, 8, 0, <<>>)
MulHU(a, b) == SubSeq(MulCols(a, b, 1, 16, 0, <<>>), 9, 16)
MulH(a, b) == LET h == MulHU(a, b)
                  h1 == IF IsNeg(a) THEN Sub(h, b) ELSE h
              IN IF IsNeg(b) THEN Sub(h1, a) ELSE h1

(* --- shifts ----------------------------------------------------------- *)
P2(k) == <<1, 2, 4, 8, 16, 32, 64, 128, 256>>[k + 1]
ByteAt(w, i) == IF i < 1 \/ i > 8 THEN 0 ELSE w[i]
Shl(w, k) == \* k in 0..63 (64 gives zero)
  LET q == k \div 8   m == P2(k % 8)   d == 256 \div m
      by(i) == ((ByteAt(w, i - q) * m) % 256) + (ByteAt(w, i - q - 1) \div d)
  IN <<by(1), by(2), by(3), by(4), by(5), by(6), by(7), by(8)>>
ShrFill(w, k, fill) == \* shift right, filling with copies of the byte fill (0 or 255)
  LET q == k \div 8   m == P2(k % 8)   d == 256 \div m
      at(i) == IF i > 8 THEN fill ELSE w[i]
      by(i) == (at(i + q) \div m) + ((at(i + q + 1) * d) % 256)
  IN <<by(1), by(2), by(3), by(4), by(5), by(6), by(7), by(8)>>
Shr(w, k) == ShrFill(w, k, 0)
Sar(w, k) == ShrFill(w, k, IF IsNeg(w) THEN 255 ELSE 0)
Rotr(w, k) == IF k = 0 THEN w ELSE BOr(Shr(w, k), Shl(w, 64 - k))
Bit(w, i) == (w[(i \div 8) + 1] \div P2(i % 8)) % 2
\* the low n bits set, n in 0..64
LowMask(n) == BNot(Shl(Ones, n))

(* --- extension -------------------------------------------------------- *)
Sext8(w)  == LET s == IF w[1] >= 128 THEN 255 ELSE 0 IN <<w[1], s, s, s, s, s, s, s>>
Sext16(w) == LET s == IF w[2] >= 128 THEN 255 ELSE 0 IN <<w[1], w[2], s, s, s, s, s, s>>
Sext32(w) == LET s == IF w[4] >= 128 THEN 255 ELSE 0 IN <<w[1], w[2], w[3], w[4], s, s, s, s>>
Zext8(w)  == <<w[1], 0, 0, 0, 0, 0, 0, 0>>
Zext16(w) == <<w[1], w[2], 0, 0, 0, 0, 0, 0>>
Zext32(w) == <<w[1], w[2], w[3], w[4], 0, 0, 0, 0>>
Hi32(w) == <<w[5], w[6], w[7], w[8], 0, 0, 0, 0>>

(* --- division (restoring, from the top bit) --------------------------- *)
RECURSIVE DivStep(_, _, _, _, _)
DivStep(a, b, i, q, r) == \* r < b always; r may need 65 bits: carry is handled through IsNeg
  IF i < 0 THEN <<q, r>>
  ELSE LET top == IsNeg(r)
           r2 == AddC(r, r, Bit(a, i))
           ge == top \/ ~ULt(r2, b)
       IN DivStep(a, b, i - 1, AddC(q, q, IF ge THEN 1 ELSE 0), IF ge THEN Sub(r2, b) ELSE r2)
UDivMod(a, b) == DivStep(a, b, 63, Zero, Zero)   \* b # 0
Abs(w) == IF IsNeg(w) THEN Neg(w) ELSE w
\* signed division truncating toward zero; -2^63 / -1 wraps to -2^63 remainder 0
SDivMod(a, b) ==
  LET qr == UDivMod(Abs(a), Abs(b))
  IN <<IF IsNeg(a) # IsNeg(b) THEN Neg(qr[1]) ELSE qr[1], IF IsNeg(a) THEN Neg(qr[2]) ELSE qr[2]>>

(* --- bit counting and permutation ------------------------------------- *)
RECURSIVE CountFrom(_, _, _, _, _)
\* number of consecutive bits equal to v met from bit i in direction d, at most n
CountFrom(w, i, d, v, n) == IF n = 0 \/ Bit(w, i) # v THEN 0 ELSE 1 + CountFrom(w, i + d, d, v, n - 1)
RevBits8(x) == 128*(x%2) + 64*((x\div 2)%2) + 32*((x\div 4)%2) + 16*((x\div 8)%2)
             + 8*((x\div 16)%2) + 4*((x\div 32)%2) + 2*((x\div 64)%2) + (x\div 128)
=============================================================================
