------------------------------- MODULE MCWord -------------------------------
(* Relates the byte-tuple operators of Word to integer arithmetic and to    *)
(* algebraic laws, over a grid of operands covering every byte position.    *)
EXTENDS Word, TLC
CONSTANT Full
Small == IF Full THEN (0..300) \cup {511, 512, 65535, 65536, 16777215, 16777216, 2147483647} \cup (-300..-1) \cup {-65536, -2147483647}
         ELSE {0, 1, 2, 3, 7, 127, 128, 255, 256, 257, 4095, 65535, 65536, 16777216, 2147483647, -1, -2, -128, -129, -256, -65536, -2147483647}
Mid == {i \in Small : i > -30000 /\ i < 30000}
Pat == {Zero, Ones, OfInt(1), OfInt(-2), <<0,0,0,128,0,0,0,0>>, <<0,0,0,128,255,255,255,255>>, <<255,255,255,127,0,0,0,0>>,
        <<0,0,0,0,0,0,0,128>>, <<255,255,255,255,255,255,255,127>>, <<1,2,3,4,5,6,7,8>>, <<254,220,186,152,118,84,50,16>>,
        <<0,0,0,0,1,0,0,0>>, <<171,171,171,171,171,171,171,171>>, <<5,0,0,0,0,0,0,64>>}
VARIABLE x
Init == x \in (Small \X {"i"}) \cup (Pat \X {"w"})
Next == FALSE /\ x' = x
IntLaws(i) ==
  /\ i >= 0 => IsSmall(OfInt(i)) /\ ToInt(OfInt(i)) = i
  /\ i > -2147483647 => Neg(OfInt(i)) = OfInt(-i)
  /\ \A j \in Mid : i < 2147000000 /\ i > -2147000000 =>
        /\ Add(OfInt(i), OfInt(j)) = OfInt(i + j)
        /\ Sub(OfInt(i), OfInt(j)) = OfInt(i - j)
        /\ SLt(OfInt(i), OfInt(j)) <=> i < j
        /\ i >= 0 /\ j >= 0 => (ULt(OfInt(i), OfInt(j)) <=> i < j)
  /\ \A j \in Mid : i \in Mid =>
        /\ Mul(OfInt(i), OfInt(j)) = OfInt(i * j)
        /\ MulH(OfInt(i), OfInt(j)) = (IF i * j < 0 THEN Ones ELSE Zero)
        /\ (j > 0 /\ i >= 0) => UDivMod(OfInt(i), OfInt(j)) = <<OfInt(i \div j), OfInt(i % j)>>
        /\ (j # 0) => LET a == IF i < 0 THEN -i ELSE i  b == IF j < 0 THEN -j ELSE j
                          q == IF (i < 0) # (j < 0) THEN -(a \div b) ELSE a \div b
                      IN SDivMod(OfInt(i), OfInt(j)) = <<OfInt(q), OfInt(i - q * j)>>
WordLaws(a) ==
  /\ \A k \in 0..63 : /\ Shl(a, k) = (IF k = 0 THEN a ELSE LET h == Shl(a, k-1) IN Add(h, h))
                      /\ Shr(a, k) = (IF k = 0 THEN a ELSE LET h == Shr(a, k-1) IN UDivMod(h, OfInt(2))[1])
                      /\ \A i \in 0..63 : /\ Bit(Shl(a, k), i) = (IF i < k THEN 0 ELSE Bit(a, i - k))
                                          /\ Bit(Sar(a, k), i) = (IF i + k > 63 THEN Bit(a, 63) ELSE Bit(a, i + k))
                                          /\ Bit(Rotr(a, k), i) = Bit(a, (i + k) % 64)
                                          /\ Bit(LowMask(k), i) = (IF i < k THEN 1 ELSE 0)
  /\ \A b \in Pat : /\ Sub(Add(a, b), b) = a /\ Add(a, b) = Add(b, a) /\ Mul(a, b) = Mul(b, a)
                    /\ BAnd(a, b) = BNot(BOr(BNot(a), BNot(b))) /\ BXor(a, b) = BOr(BAnd(a, BNot(b)), BAnd(BNot(a), b))
                    /\ \A c \in Pat : Mul(a, Add(b, c)) = Add(Mul(a, b), Mul(a, c))
                    /\ b # Zero => LET u == UDivMod(a, b)  s == SDivMod(a, b)
                                   IN /\ Add(Mul(u[1], b), u[2]) = a /\ ULt(u[2], b) /\ MulHU(u[1], b) = Zero
                                      /\ Add(Mul(s[1], b), s[2]) = a
                    /\ (ULt(a, b) \/ ULt(b, a)) <=> a # b
  /\ LowMask(64) = Ones /\ Zext32(a) = BAnd(a, LowMask(32))
  /\ Sext32(a) = Sar(Shl(a, 32), 32) /\ Sext16(a) = Sar(Shl(a, 48), 48) /\ Sext8(a) = Sar(Shl(a, 56), 56)
Laws == IF x[2] = "i" THEN IntLaws(x[1]) ELSE WordLaws(x[1])
=============================================================================
