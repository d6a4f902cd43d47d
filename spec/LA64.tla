-------------------------------- MODULE LA64 --------------------------------
(* The LoongArch64 user-level machine: instruction decoding and the effect  *)
(* of one instruction, transcribed from the LoongArch Reference Manual      *)
(* volume 1 for the instructions the emulator implements.  Everything is    *)
(* written from the manual, not from the emulator's sources.                *)
(*                                                                          *)
(* A machine is a record                                                    *)
(*   pc   : word           r  : 31 words (r1..r31)   f : 32 words (f0..f31) *)
(*   fu   : set of f registers whose upper 32 bits are unspecified          *)
(*   cc   : 8 condition flags                      ll : LL bit              *)
(*   mem  : bytes of the memory windows that the model follows              *)
(*   st   : "run", or the outcome of the last instruction:                  *)
(*          "prot" (memory fault), "ill" (illegal), "sys", "break",         *)
(*          "stop" (the emulator's stop instruction),                       *)
(*          "unmodelled" (legal access outside the followed windows)        *)
(*   fa   : the faulting address when st = "prot"                           *)
EXTENDS Word, TLC

CONSTANTS
  RO,        \* first readable address of the arena
  RW,        \* first writable address
  END,       \* end of the arena
  Windows    \* sequence of <<base, length>>: the followed part of the arena

----------------------------------------------------------------------------
(* fields of an instruction word (a natural number below 2^31) *)
Pow2 == <<2,4,8,16,32,64,128,256,512,1024,2048,4096,8192,16384,32768,65536,131072,262144,524288,1048576,
          2097152,4194304,8388608,16777216,33554432,67108864,134217728,268435456,536870912,1073741824>>
Fld(w, lo, n) == IF lo = 0 THEN w % Pow2[n] ELSE (w \div Pow2[lo]) % Pow2[n]
SFld(w, lo, n) == LET v == Fld(w, lo, n) IN IF v >= Pow2[n - 1] THEN v - Pow2[n] ELSE v
rd(w) == w % 32
rj(w) == (w \div 32) % 32
rk(w) == (w \div 1024) % 32
si12(w) == SFld(w, 10, 12)
ui12(w) == Fld(w, 10, 12)
si14(w) == SFld(w, 10, 14)
si16(w) == SFld(w, 10, 16)
si20(w) == SFld(w, 5, 20)
offs21(w) == Fld(w, 10, 16) + 65536 * SFld(w, 0, 5)
offs26(w) == Fld(w, 10, 16) + 65536 * SFld(w, 0, 10)

----------------------------------------------------------------------------
(* decoding tables, one per opcode width *)
T6 == (4 :> "addu16i.d") @@ (16 :> "beqz") @@ (17 :> "bnez") @@ (19 :> "jirl") @@ (20 :> "b") @@ (21 :> "bl")
   @@ (22 :> "beq") @@ (23 :> "bne") @@ (24 :> "blt") @@ (25 :> "bge") @@ (26 :> "bltu") @@ (27 :> "bgeu")
T7 == (10 :> "lu12i.w") @@ (11 :> "lu32i.d") @@ (12 :> "pcaddi") @@ (13 :> "pcalau12i") @@ (14 :> "pcaddu12i") @@ (15 :> "pcaddu18i")
T8 == (32 :> "ll.w") @@ (33 :> "sc.w") @@ (34 :> "ll.d") @@ (35 :> "sc.d") @@ (36 :> "ldptr.w") @@ (37 :> "stptr.w")
   @@ (38 :> "ldptr.d") @@ (39 :> "stptr.d")
T10 == (8 :> "slti") @@ (9 :> "sltui") @@ (10 :> "addi.w") @@ (11 :> "addi.d") @@ (12 :> "lu52i.d") @@ (13 :> "andi")
    @@ (14 :> "ori") @@ (15 :> "xori") @@ (2 :> "bstrins.d") @@ (3 :> "bstrpick.d")
    @@ (160 :> "ld.b") @@ (161 :> "ld.h") @@ (162 :> "ld.w") @@ (163 :> "ld.d") @@ (164 :> "st.b") @@ (165 :> "st.h")
    @@ (166 :> "st.w") @@ (167 :> "st.d") @@ (168 :> "ld.bu") @@ (169 :> "ld.hu") @@ (170 :> "ld.wu") @@ (171 :> "preld")
    @@ (172 :> "fld.s") @@ (173 :> "fst.s") @@ (174 :> "fld.d") @@ (175 :> "fst.d")
T17 == (32 :> "add.w") @@ (33 :> "add.d") @@ (34 :> "sub.w") @@ (35 :> "sub.d") @@ (36 :> "slt") @@ (37 :> "sltu")
    @@ (38 :> "maskeqz") @@ (39 :> "masknez") @@ (40 :> "nor") @@ (41 :> "and") @@ (42 :> "or") @@ (43 :> "xor")
    @@ (44 :> "orn") @@ (45 :> "andn") @@ (46 :> "sll.w") @@ (47 :> "srl.w") @@ (48 :> "sra.w") @@ (49 :> "sll.d")
    @@ (50 :> "srl.d") @@ (51 :> "sra.d") @@ (54 :> "rotr.w") @@ (55 :> "rotr.d")
    @@ (56 :> "mul.w") @@ (57 :> "mulh.w") @@ (58 :> "mulh.wu") @@ (59 :> "mul.d") @@ (60 :> "mulh.d") @@ (61 :> "mulh.du")
    @@ (64 :> "div.w") @@ (65 :> "mod.w") @@ (66 :> "div.wu") @@ (67 :> "mod.wu") @@ (68 :> "div.d") @@ (69 :> "mod.d")
    @@ (70 :> "div.du") @@ (71 :> "mod.du") @@ (84 :> "break") @@ (86 :> "syscall")
    @@ (129 :> "slli.w") @@ (137 :> "srli.w") @@ (145 :> "srai.w") @@ (153 :> "rotri.w")
    @@ (130 :> "slli.d") @@ (131 :> "slli.d") @@ (138 :> "srli.d") @@ (139 :> "srli.d") @@ (146 :> "srai.d") @@ (147 :> "srai.d")
    @@ (154 :> "rotri.d") @@ (155 :> "rotri.d")
    @@ (28672 :> "ldx.b") @@ (28680 :> "ldx.h") @@ (28688 :> "ldx.w") @@ (28696 :> "ldx.d")
    @@ (28704 :> "stx.b") @@ (28712 :> "stx.h") @@ (28720 :> "stx.w") @@ (28728 :> "stx.d")
    @@ (28736 :> "ldx.bu") @@ (28744 :> "ldx.hu") @@ (28752 :> "ldx.wu")
    @@ (28768 :> "fldx.s") @@ (28776 :> "fldx.d") @@ (28784 :> "fstx.s") @@ (28792 :> "fstx.d")
    @@ (28864 :> "amswap.w") @@ (28865 :> "amswap.d") @@ (28866 :> "amadd.w") @@ (28867 :> "amadd.d")
    @@ (28868 :> "amand.w") @@ (28869 :> "amand.d") @@ (28870 :> "amor.w") @@ (28871 :> "amor.d")
    @@ (28872 :> "amxor.w") @@ (28873 :> "amxor.d")
    @@ (28882 :> "amswap.w") @@ (28883 :> "amswap.d") @@ (28884 :> "amadd.w") @@ (28885 :> "amadd.d")
    @@ (28886 :> "amand.w") @@ (28887 :> "amand.d") @@ (28888 :> "amor.w") @@ (28889 :> "amor.d")
    @@ (28890 :> "amxor.w") @@ (28891 :> "amxor.d") @@ (28900 :> "dbar") @@ (28901 :> "ibar")
T22 == (4 :> "clo.w") @@ (5 :> "clz.w") @@ (6 :> "cto.w") @@ (7 :> "ctz.w") @@ (8 :> "clo.d") @@ (9 :> "clz.d")
    @@ (10 :> "cto.d") @@ (11 :> "ctz.d") @@ (12 :> "revb.2h") @@ (13 :> "revb.4h") @@ (14 :> "revb.2w") @@ (15 :> "revb.d")
    @@ (16 :> "revh.2w") @@ (17 :> "revh.d") @@ (18 :> "bitrev.4b") @@ (19 :> "bitrev.8b") @@ (20 :> "bitrev.w")
    @@ (21 :> "bitrev.d") @@ (22 :> "ext.w.h") @@ (23 :> "ext.w.b") @@ (26 :> "rdtime.d") @@ (17714 :> "movfcsr2gr")
    @@ (17665 :> "fabs.s") @@ (17666 :> "fabs.d") @@ (17670 :> "fneg.d") @@ (17677 :> "fclass.s") @@ (17678 :> "fclass.d")
    @@ (17701 :> "fmov.s") @@ (17702 :> "fmov.d") @@ (17705 :> "movgr2fr.w") @@ (17706 :> "movgr2fr.d")
    @@ (17709 :> "movfr2gr.s") @@ (17710 :> "movfr2gr.d") @@ (17716 :> "movfr2cf") @@ (17717 :> "movcf2fr")
    @@ (17718 :> "movgr2cf") @@ (17719 :> "movcf2gr")
D6 == DOMAIN T6
D7 == DOMAIN T7
D8 == DOMAIN T8
D10 == DOMAIN T10
D17 == DOMAIN T17
D22 == DOMAIN T22
StopWord == 1376256   \* 0x00150000: or zero, zero, zero, the emulator's stop instruction

HostTime == <<16, 50, 84, 118, 152, 186, 220, 254>>
HostFcsr == <<0, 0, 10, 21, 0, 0, 0, 0>>
Decode(w) ==
  IF w < 0 THEN "illegal"
  ELSE LET o6 == w \div 67108864 IN
  IF o6 = 0 THEN
    LET o17 == w \div 32768  o22 == w \div 1024  o15 == w \div 131072 IN
    IF w = StopWord THEN "stop"
    ELSE IF o17 \in D17 THEN T17[o17]
    ELSE IF o22 \in D22 THEN T22[o22]
    ELSE IF (w \div 4194304) \in D10 THEN T10[w \div 4194304]
    ELSE IF o15 = 2 THEN "alsl.w" ELSE IF o15 = 3 THEN "alsl.wu" ELSE IF o15 = 22 THEN "alsl.d"
    ELSE IF w \div 262144 = 3 THEN "bytepick.d"
    ELSE IF w \div 2097152 = 3 THEN (IF Fld(w, 15, 1) = 1 THEN "bstrpick.w" ELSE "bstrins.w")
    ELSE "illegal"
  ELSE IF o6 \in D6 THEN T6[o6]
  ELSE IF (w \div 33554432) \in D7 THEN T7[w \div 33554432]
  ELSE IF (w \div 16777216) \in D8 THEN T8[w \div 16777216]
  ELSE IF o6 = 10 THEN (IF (w \div 4194304) \in D10 THEN T10[w \div 4194304] ELSE "illegal")
  ELSE IF o6 = 14 THEN (IF (w \div 32768) \in D17 THEN T17[w \div 32768] ELSE "illegal")
  ELSE IF o6 = 18 THEN (IF Fld(w, 8, 2) = 0 THEN "bceqz" ELSE IF Fld(w, 8, 2) = 1 THEN "bcnez" ELSE "illegal")
  ELSE IF o6 = 3 THEN (IF w \div 1048576 = 193 /\ Fld(w, 3, 2) = 0 THEN "fcmp.s"
                       ELSE IF w \div 1048576 = 194 /\ Fld(w, 3, 2) = 0 THEN "fcmp.d"
                       ELSE IF w \div 262144 = 832 THEN "fsel" ELSE "illegal")
  ELSE "illegal"

----------------------------------------------------------------------------
(* access to the machine *)
R(m, i) == IF i = 0 THEN Zero ELSE m.r[i]
PC4(m) == AddInt(m.pc, 4)
Nxt(m) == [m EXCEPT !.pc = PC4(m)]
W(m, i, v) == IF i = 0 THEN [m EXCEPT !.pc = PC4(m)] ELSE [m EXCEPT !.pc = PC4(m), !.r[i] = v]
F(m, i) == m.f[i + 1]
WF(m, i, v) == [m EXCEPT !.pc = PC4(m), !.f[i + 1] = v, !.fu = @ \ {i}]
WFS(m, i, v) == [m EXCEPT !.pc = PC4(m), !.f[i + 1] = v, !.fu = @ \cup {i}]  \* only the low half is defined
WC(m, c, b) == [m EXCEPT !.pc = PC4(m), !.cc[c + 1] = b]

RECURSIVE WinPos(_, _, _)
WinPos(a, k, off) == IF k > Len(Windows) THEN 0
  ELSE LET b == Windows[k][1]  n == Windows[k][2]
       IN IF a >= b /\ a < b + n THEN off + a - b + 1 ELSE WinPos(a, k + 1, off + n)
\* index in m.mem of the byte at integer address a, 0 when it is not followed
MIdx(a) == WinPos(a, 1, 0)
InRange(a, lo) == IsSmall(a) /\ ToInt(a) >= lo /\ ToInt(a) < END
Fault(m, a) == [m EXCEPT !.st = "prot", !.fa = a]
Unmod(m) == [m EXCEPT !.st = "unmodelled"]
Bytes(m, p, n) == CASE n = 1 -> <<m.mem[p],0,0,0,0,0,0,0>>
  [] n = 2 -> <<m.mem[p], m.mem[p+1],0,0,0,0,0,0>>
  [] n = 4 -> <<m.mem[p], m.mem[p+1], m.mem[p+2], m.mem[p+3],0,0,0,0>>
  [] OTHER -> <<m.mem[p], m.mem[p+1], m.mem[p+2], m.mem[p+3], m.mem[p+4], m.mem[p+5], m.mem[p+6], m.mem[p+7]>>
Ext(v, kind) == CASE kind = "b" -> Sext8(v) [] kind = "h" -> Sext16(v) [] kind = "w" -> Sext32(v) [] OTHER -> v
\* a load of n bytes at a: on success K(value, machine) continues
Load(m, a, n, K(_)) ==
  IF ~InRange(a, RO) THEN Fault(m, a)
  ELSE LET p == MIdx(ToInt(a)) IN
       IF p = 0 \/ MIdx(ToInt(a) + n - 1) # p + n - 1 THEN Unmod(m) ELSE K(Bytes(m, p, n))
Put(mem, p, n, v) == CASE n = 1 -> [mem EXCEPT ![p] = v[1]]
  [] n = 2 -> [mem EXCEPT ![p] = v[1], ![p+1] = v[2]]
  [] n = 4 -> [mem EXCEPT ![p] = v[1], ![p+1] = v[2], ![p+2] = v[3], ![p+3] = v[4]]
  [] OTHER -> [mem EXCEPT ![p] = v[1], ![p+1] = v[2], ![p+2] = v[3], ![p+3] = v[4],
                          ![p+4] = v[5], ![p+5] = v[6], ![p+6] = v[7], ![p+7] = v[8]]
Store(m, a, n, v) ==
  IF ~InRange(a, RW) THEN Fault(m, a)
  ELSE LET p == MIdx(ToInt(a)) IN
       IF p = 0 \/ MIdx(ToInt(a) + n - 1) # p + n - 1 THEN Unmod(m)
       ELSE [Nxt(m) EXCEPT !.mem = Put(@, p, n, v)]
LoadR(m, a, n, kind, d) == Load(m, a, n, LAMBDA v : W(m, d, Ext(v, kind)))
Amo(m, w, n, Op(_, _)) ==
  LET a == R(m, rj(w))
      K(v) == LET old == IF n = 4 THEN Sext32(v) ELSE v
                  s == Store(m, a, n, Op(v, R(m, rk(w))))
              IN IF s.st # "run" THEN s ELSE IF rd(w) = 0 THEN s ELSE [s EXCEPT !.r[rd(w)] = old]
  IN Load(m, a, n, K)

----------------------------------------------------------------------------
(* floating point, on bit patterns *)
ExpS(v) == (v[4] % 128) * 2 + (v[3] \div 128)
FracZeroS(v) == v[1] = 0 /\ v[2] = 0 /\ v[3] % 128 = 0
ExpD(v) == (v[8] % 128) * 16 + (v[7] \div 16)
FracZeroD(v) == v[1] = 0 /\ v[2] = 0 /\ v[3] = 0 /\ v[4] = 0 /\ v[5] = 0 /\ v[6] = 0 /\ v[7] % 16 = 0
IsNaN(v, d) == IF d THEN ExpD(v) = 2047 /\ ~FracZeroD(v) ELSE ExpS(v) = 255 /\ ~FracZeroS(v)
SignF(v, d) == IF d THEN v[8] >= 128 ELSE v[4] >= 128
MagF(v, d) == IF d THEN <<v[1],v[2],v[3],v[4],v[5],v[6],v[7],v[8] % 128>> ELSE <<v[1],v[2],v[3],v[4] % 128,0,0,0,0>>
FEq(a, b, d) == (MagF(a, d) = Zero /\ MagF(b, d) = Zero) \/ (MagF(a, d) = MagF(b, d) /\ SignF(a, d) = SignF(b, d))
FLt(a, b, d) == ~FEq(a, b, d) /\
   (IF SignF(a, d) # SignF(b, d) THEN SignF(a, d)
    ELSE IF SignF(a, d) THEN ULt(MagF(b, d), MagF(a, d)) ELSE ULt(MagF(a, d), MagF(b, d)))
FClass(v, d) ==
  LET mx == IF d THEN 2047 ELSE 255
      e == IF d THEN ExpD(v) ELSE ExpS(v)
      z == IF d THEN FracZeroD(v) ELSE FracZeroS(v)
      quiet == IF d THEN (v[7] \div 8) % 2 = 1 ELSE (v[3] \div 64) % 2 = 1
      s == SignF(v, d)
      bit == IF e = mx THEN (IF z THEN (IF s THEN 2 ELSE 6) ELSE IF quiet THEN 1 ELSE 0)
             ELSE IF e = 0 THEN (IF z THEN (IF s THEN 5 ELSE 9) ELSE (IF s THEN 4 ELSE 8))
             ELSE (IF s THEN 3 ELSE 7)
  IN Shl(OfInt(1), bit)
FCond(c, a, b, d) ==   \* truth of the condition, "?" when the emulator does not implement it
  LET un == IsNaN(a, d) \/ IsNaN(b, d)  lt == FLt(a, b, d)  eq == FEq(a, b, d)
      base == c - (c % 2)  \* quiet and signalling forms give the same flag
      t == CASE base = 0 -> FALSE
             [] base = 2 -> ~un /\ lt
             [] base = 4 -> ~un /\ eq
             [] base = 6 -> ~un /\ (lt \/ eq)
             [] base = 8 -> un
             [] base = 10 -> un \/ lt
             [] base = 12 -> un \/ eq
             [] base = 14 -> un \/ lt \/ eq
             [] base = 16 -> ~un /\ ~eq
             [] base = 20 -> ~un
             [] base = 24 -> un \/ ~eq
             [] OTHER -> FALSE
  IN IF t THEN 1 ELSE 0

----------------------------------------------------------------------------
(* one instruction *)
Bool(b) == IF b THEN OfInt(1) ELSE Zero
Jump(m, t) == [m EXCEPT !.pc = t]
Br(m, c, off) == IF c THEN [m EXCEPT !.pc = AddInt(m.pc, 4 * off)] ELSE Nxt(m)
\* 20-bit immediates placed in the upper part
Hi20(w) == Shl(OfInt(si20(w)), 12)
Shamt6(v) == v[1] % 64
Shamt5(v) == v[1] % 32
Zlow(v) == Zext32(v)
Rotr32(v, k) == LET z == Zext32(v) IN IF k = 0 THEN z ELSE Zext32(BOr(Shr(z, k), Shl(z, 32 - k)))
RB(v) == <<v[8], v[7], v[6], v[5], v[4], v[3], v[2], v[1]>>
Bitrev64(v) == <<RevBits8(v[8]), RevBits8(v[7]), RevBits8(v[6]), RevBits8(v[5]), RevBits8(v[4]), RevBits8(v[3]), RevBits8(v[2]), RevBits8(v[1])>>

CondB16 == {"beq", "bne", "blt", "bge", "bltu", "bgeu"}
BrCond(m, w, op) ==
  LET a == R(m, rj(w))  b == R(m, rd(w))  f == m.cc[Fld(w, 5, 3) + 1] IN
  CASE op = "beqz" -> a = Zero [] op = "bnez" -> a # Zero
    [] op = "bceqz" -> f = 0 [] op = "bcnez" -> f # 0
    [] op = "beq" -> a = b [] op = "bne" -> a # b
    [] op = "blt" -> SLt(a, b) [] op = "bge" -> ~SLt(a, b)
    [] op = "bltu" -> ULt(a, b) [] op = "bgeu" -> ~ULt(a, b)
    [] OTHER -> FALSE
\* does this instruction transfer control (even when to the next instruction)?
Taken(m, w, op) == op \in {"b", "bl", "jirl"} \/ BrCond(m, w, op)

Exec1(m, w, op) ==
  LET d == rd(w)
      a == R(m, rj(w))
      b == R(m, rk(w))
      i12 == OfInt(si12(w))
      u12 == OfInt(ui12(w))
      ea == Add(a, i12)
      ep == Add(a, OfInt(4 * si14(w)))
      ex == Add(a, b)
      fj == F(m, rj(w))
      fk == F(m, rk(w))
  IN
  CASE op = "add.w" -> W(m, d, Sext32(Add(a, b)))
    [] op = "add.d" -> W(m, d, Add(a, b))
    [] op = "sub.w" -> W(m, d, Sext32(Sub(a, b)))
    [] op = "sub.d" -> W(m, d, Sub(a, b))
    [] op = "addi.w" -> W(m, d, Sext32(ea))
    [] op = "addi.d" -> W(m, d, ea)
    [] op = "addu16i.d" -> W(m, d, Add(a, Shl(OfInt(si16(w)), 16)))
    [] op = "slt" -> W(m, d, Bool(SLt(a, b)))
    [] op = "sltu" -> W(m, d, Bool(ULt(a, b)))
    [] op = "slti" -> W(m, d, Bool(SLt(a, i12)))
    [] op = "sltui" -> W(m, d, Bool(ULt(a, i12)))
    [] op = "maskeqz" -> W(m, d, IF b = Zero THEN Zero ELSE a)
    [] op = "masknez" -> W(m, d, IF b # Zero THEN Zero ELSE a)
    [] op = "nor" -> W(m, d, BNot(BOr(a, b)))
    [] op = "and" -> W(m, d, BAnd(a, b))
    [] op = "or" -> W(m, d, BOr(a, b))
    [] op = "xor" -> W(m, d, BXor(a, b))
    [] op = "orn" -> W(m, d, BOr(a, BNot(b)))
    [] op = "andn" -> W(m, d, BAnd(a, BNot(b)))
    [] op = "andi" -> W(m, d, BAnd(a, u12))
    [] op = "ori" -> W(m, d, BOr(a, u12))
    [] op = "xori" -> W(m, d, BXor(a, u12))
    [] op = "lu12i.w" -> W(m, d, Sext32(Hi20(w)))
    [] op = "lu32i.d" -> W(m, d, BOr(Zext32(R(m, d)), Shl(OfInt(si20(w)), 32)))
    [] op = "lu52i.d" -> W(m, d, BOr(BAnd(a, LowMask(52)), Shl(i12, 52)))
    [] op = "pcaddi" -> W(m, d, Add(m.pc, OfInt(4 * si20(w))))
    [] op = "pcalau12i" -> W(m, d, BAnd(Add(m.pc, Sext32(Hi20(w))), BNot(LowMask(12))))
    [] op = "pcaddu12i" -> W(m, d, Add(m.pc, Sext32(Hi20(w))))
    [] op = "pcaddu18i" -> W(m, d, Add(m.pc, Shl(OfInt(si20(w)), 18)))
    [] op = "sll.w" -> W(m, d, Sext32(Shl(Zlow(a), Shamt5(b))))
    [] op = "srl.w" -> W(m, d, Sext32(Shr(Zlow(a), Shamt5(b))))
    [] op = "sra.w" -> W(m, d, Sar(Sext32(a), Shamt5(b)))
    [] op = "sll.d" -> W(m, d, Shl(a, Shamt6(b)))
    [] op = "srl.d" -> W(m, d, Shr(a, Shamt6(b)))
    [] op = "sra.d" -> W(m, d, Sar(a, Shamt6(b)))
    [] op = "rotr.w" -> W(m, d, Sext32(Rotr32(a, Shamt5(b))))
    [] op = "rotr.d" -> W(m, d, Rotr(a, Shamt6(b)))
    [] op = "slli.w" -> W(m, d, Sext32(Shl(Zlow(a), rk(w))))
    [] op = "srli.w" -> W(m, d, Sext32(Shr(Zlow(a), rk(w))))
    [] op = "srai.w" -> W(m, d, Sar(Sext32(a), rk(w)))
    [] op = "rotri.w" -> W(m, d, Sext32(Rotr32(a, rk(w))))
    [] op = "slli.d" -> W(m, d, Shl(a, Fld(w, 10, 6)))
    [] op = "srli.d" -> W(m, d, Shr(a, Fld(w, 10, 6)))
    [] op = "srai.d" -> W(m, d, Sar(a, Fld(w, 10, 6)))
    [] op = "rotri.d" -> W(m, d, Rotr(a, Fld(w, 10, 6)))
    [] op = "alsl.w" -> W(m, d, Sext32(Add(Shl(a, Fld(w, 15, 2) + 1), b)))
    [] op = "alsl.wu" -> W(m, d, Zext32(Add(Shl(a, Fld(w, 15, 2) + 1), b)))
    [] op = "alsl.d" -> W(m, d, Add(Shl(a, Fld(w, 15, 2) + 1), b))
    [] op = "bytepick.d" -> LET s == 8 * Fld(w, 15, 3) IN W(m, d, IF s = 0 THEN b ELSE BOr(Shl(b, s), Shr(a, 64 - s)))
    [] op = "mul.w" -> W(m, d, Sext32(Mul(a, b)))
    [] op = "mulh.w" -> W(m, d, Sext32(Hi32(Mul(Sext32(a), Sext32(b)))))
    [] op = "mulh.wu" -> W(m, d, Sext32(Hi32(Mul(Zext32(a), Zext32(b)))))
    [] op = "mul.d" -> W(m, d, Mul(a, b))
    [] op = "mulh.d" -> W(m, d, MulH(a, b))
    [] op = "mulh.du" -> W(m, d, MulHU(a, b))
    \* division by zero gives an arbitrary value: the trace module accepts any
    [] op = "div.w" -> W(m, d, Sext32(SDivMod(Sext32(a), Sext32(b))[1]))
    [] op = "mod.w" -> W(m, d, Sext32(SDivMod(Sext32(a), Sext32(b))[2]))
    [] op = "div.wu" -> W(m, d, Sext32(UDivMod(Zext32(a), Zext32(b))[1]))
    [] op = "mod.wu" -> W(m, d, Sext32(UDivMod(Zext32(a), Zext32(b))[2]))
    [] op = "div.d" -> W(m, d, SDivMod(a, b)[1])
    [] op = "mod.d" -> W(m, d, SDivMod(a, b)[2])
    [] op = "div.du" -> W(m, d, UDivMod(a, b)[1])
    [] op = "mod.du" -> W(m, d, UDivMod(a, b)[2])
    [] op = "bstrins.d" -> LET hi == Fld(w, 16, 6)  lo == Fld(w, 10, 6)  k == Shl(LowMask(hi - lo + 1), lo)
                           IN W(m, d, BOr(BAnd(R(m, d), BNot(k)), BAnd(Shl(a, lo), k)))
    [] op = "bstrpick.d" -> LET hi == Fld(w, 16, 6)  lo == Fld(w, 10, 6) IN W(m, d, BAnd(Shr(a, lo), LowMask(hi - lo + 1)))
    [] op = "bstrins.w" -> LET hi == Fld(w, 16, 5)  lo == Fld(w, 10, 5)  k == Shl(LowMask(hi - lo + 1), lo)
                           IN W(m, d, Sext32(BOr(BAnd(R(m, d), BNot(k)), BAnd(Shl(a, lo), k))))
    [] op = "bstrpick.w" -> LET hi == Fld(w, 16, 5)  lo == Fld(w, 10, 5) IN W(m, d, Sext32(BAnd(Shr(Zlow(a), lo), LowMask(hi - lo + 1))))
    [] op = "clo.w" -> W(m, d, OfInt(CountFrom(a, 31, -1, 1, 32)))
    [] op = "clz.w" -> W(m, d, OfInt(CountFrom(a, 31, -1, 0, 32)))
    [] op = "cto.w" -> W(m, d, OfInt(CountFrom(a, 0, 1, 1, 32)))
    [] op = "ctz.w" -> W(m, d, OfInt(CountFrom(a, 0, 1, 0, 32)))
    [] op = "clo.d" -> W(m, d, OfInt(CountFrom(a, 63, -1, 1, 64)))
    [] op = "clz.d" -> W(m, d, OfInt(CountFrom(a, 63, -1, 0, 64)))
    [] op = "cto.d" -> W(m, d, OfInt(CountFrom(a, 0, 1, 1, 64)))
    [] op = "ctz.d" -> W(m, d, OfInt(CountFrom(a, 0, 1, 0, 64)))
    [] op = "revb.2h" -> W(m, d, Sext32(<<a[2], a[1], a[4], a[3], 0, 0, 0, 0>>))
    [] op = "revb.4h" -> W(m, d, <<a[2], a[1], a[4], a[3], a[6], a[5], a[8], a[7]>>)
    [] op = "revb.2w" -> W(m, d, <<a[4], a[3], a[2], a[1], a[8], a[7], a[6], a[5]>>)
    [] op = "revb.d" -> W(m, d, RB(a))
    [] op = "revh.2w" -> W(m, d, <<a[3], a[4], a[1], a[2], a[7], a[8], a[5], a[6]>>)
    [] op = "revh.d" -> W(m, d, <<a[7], a[8], a[5], a[6], a[3], a[4], a[1], a[2]>>)
    [] op = "bitrev.4b" -> W(m, d, Sext32(<<RevBits8(a[1]), RevBits8(a[2]), RevBits8(a[3]), RevBits8(a[4]), 0, 0, 0, 0>>))
    [] op = "bitrev.8b" -> W(m, d, RB(Bitrev64(a)))
    [] op = "bitrev.w" -> W(m, d, Sext32(Hi32(Bitrev64(a))))
    [] op = "bitrev.d" -> W(m, d, Bitrev64(a))
    [] op = "ext.w.h" -> W(m, d, Sext16(a))
    [] op = "ext.w.b" -> W(m, d, Sext8(a))
    \* what the host set: the time its callback gives, the floating-point status (destination of the counter's number is r0)
    [] op = "rdtime.d" -> W(m, d, HostTime)
    [] op = "movfcsr2gr" -> W(m, d, HostFcsr)
    \* loads and stores
    [] op = "ld.b" -> LoadR(m, ea, 1, "b", d)
    [] op = "ld.h" -> LoadR(m, ea, 2, "h", d)
    [] op = "ld.w" -> LoadR(m, ea, 4, "w", d)
    [] op = "ld.d" -> LoadR(m, ea, 8, "d", d)
    [] op = "ld.bu" -> LoadR(m, ea, 1, "u", d)
    [] op = "ld.hu" -> LoadR(m, ea, 2, "u", d)
    [] op = "ld.wu" -> LoadR(m, ea, 4, "u", d)
    [] op = "st.b" -> Store(m, ea, 1, R(m, d))
    [] op = "st.h" -> Store(m, ea, 2, R(m, d))
    [] op = "st.w" -> Store(m, ea, 4, R(m, d))
    [] op = "st.d" -> Store(m, ea, 8, R(m, d))
    [] op = "ldptr.w" -> LoadR(m, ep, 4, "w", d)
    [] op = "ldptr.d" -> LoadR(m, ep, 8, "d", d)
    [] op = "stptr.w" -> Store(m, ep, 4, R(m, d))
    [] op = "stptr.d" -> Store(m, ep, 8, R(m, d))
    [] op = "ldx.b" -> LoadR(m, ex, 1, "b", d)
    [] op = "ldx.h" -> LoadR(m, ex, 2, "h", d)
    [] op = "ldx.w" -> LoadR(m, ex, 4, "w", d)
    [] op = "ldx.d" -> LoadR(m, ex, 8, "d", d)
    [] op = "ldx.bu" -> LoadR(m, ex, 1, "u", d)
    [] op = "ldx.hu" -> LoadR(m, ex, 2, "u", d)
    [] op = "ldx.wu" -> LoadR(m, ex, 4, "u", d)
    [] op = "stx.b" -> Store(m, ex, 1, R(m, d))
    [] op = "stx.h" -> Store(m, ex, 2, R(m, d))
    [] op = "stx.w" -> Store(m, ex, 4, R(m, d))
    [] op = "stx.d" -> Store(m, ex, 8, R(m, d))
    [] op = "ll.w" -> LET s == LoadR(m, ep, 4, "w", d) IN IF s.st = "run" THEN [s EXCEPT !.ll = TRUE] ELSE s
    [] op = "ll.d" -> LET s == LoadR(m, ep, 8, "d", d) IN IF s.st = "run" THEN [s EXCEPT !.ll = TRUE] ELSE s
    [] op \in {"sc.w", "sc.d"} ->
         IF ~m.ll THEN W(m, d, Zero)
         ELSE LET s == Store(m, ep, IF op = "sc.w" THEN 4 ELSE 8, R(m, d))
              IN IF s.st # "run" THEN s ELSE IF d = 0 THEN [s EXCEPT !.ll = FALSE] ELSE [s EXCEPT !.ll = FALSE, !.r[d] = OfInt(1)]
    [] op = "amswap.w" -> Amo(m, w, 4, LAMBDA o, v : v)
    [] op = "amswap.d" -> Amo(m, w, 8, LAMBDA o, v : v)
    [] op = "amadd.w" -> Amo(m, w, 4, Add)
    [] op = "amadd.d" -> Amo(m, w, 8, Add)
    [] op = "amand.w" -> Amo(m, w, 4, BAnd)
    [] op = "amand.d" -> Amo(m, w, 8, BAnd)
    [] op = "amor.w" -> Amo(m, w, 4, BOr)
    [] op = "amor.d" -> Amo(m, w, 8, BOr)
    [] op = "amxor.w" -> Amo(m, w, 4, BXor)
    [] op = "amxor.d" -> Amo(m, w, 8, BXor)
    [] op \in {"preld", "dbar", "ibar"} -> Nxt(m)
    \* control transfer
    [] op = "beqz" -> Br(m, BrCond(m, w, op), offs21(w))
    [] op = "bnez" -> Br(m, BrCond(m, w, op), offs21(w))
    [] op \in {"bceqz", "bcnez"} -> Br(m, BrCond(m, w, op), offs21(w))
    [] op \in CondB16 -> Br(m, BrCond(m, w, op), si16(w))
    [] op = "b" -> Jump(m, AddInt(m.pc, 4 * offs26(w)))
    [] op = "bl" -> Jump([m EXCEPT !.r[1] = PC4(m)], AddInt(m.pc, 4 * offs26(w)))
    [] op = "jirl" -> Jump(W(m, d, PC4(m)), Add(a, OfInt(4 * si16(w))))
    \* floating point moves, classification, comparison, selection
    [] op = "fld.s" -> Load(m, ea, 4, LAMBDA v : WFS(m, d, v))
    [] op = "fld.d" -> Load(m, ea, 8, LAMBDA v : WF(m, d, v))
    [] op = "fst.s" -> Store(m, ea, 4, F(m, d))
    [] op = "fst.d" -> Store(m, ea, 8, F(m, d))
    [] op = "fldx.s" -> Load(m, ex, 4, LAMBDA v : WFS(m, d, v))
    [] op = "fldx.d" -> Load(m, ex, 8, LAMBDA v : WF(m, d, v))
    [] op = "fstx.s" -> Store(m, ex, 4, F(m, d))
    [] op = "fstx.d" -> Store(m, ex, 8, F(m, d))
    [] op = "fabs.s" -> WFS(m, d, <<fj[1], fj[2], fj[3], fj[4] % 128, 0, 0, 0, 0>>)
    [] op = "fabs.d" -> WF(m, d, MagF(fj, TRUE))
    [] op = "fneg.d" -> WF(m, d, <<fj[1], fj[2], fj[3], fj[4], fj[5], fj[6], fj[7], (fj[8] + 128) % 256>>)
    [] op = "fclass.s" -> WFS(m, d, FClass(fj, FALSE))
    [] op = "fclass.d" -> WF(m, d, FClass(fj, TRUE))
    [] op = "fmov.s" -> WFS(m, d, fj)
    [] op = "fmov.d" -> WF(m, d, fj)
    [] op = "movgr2fr.w" -> WFS(m, d, a)
    [] op = "movgr2fr.d" -> WF(m, d, a)
    [] op = "movfr2gr.s" -> W(m, d, Sext32(fj))
    [] op = "movfr2gr.d" -> W(m, d, fj)
    [] op = "movfr2cf" -> WC(m, d % 8, fj[1] % 2)
    [] op = "movcf2fr" -> WF(m, d, OfInt(m.cc[(rj(w) % 8) + 1]))
    [] op = "movgr2cf" -> WC(m, d % 8, a[1] % 2)
    [] op = "movcf2gr" -> W(m, d, OfInt(m.cc[(rj(w) % 8) + 1]))
    [] op = "fcmp.s" -> WC(m, d % 8, FCond(Fld(w, 15, 5), fj, fk, FALSE))
    [] op = "fcmp.d" -> WC(m, d % 8, FCond(Fld(w, 15, 5), fj, fk, TRUE))
    [] op = "fsel" -> WF(m, d, IF m.cc[Fld(w, 15, 3) + 1] = 0 THEN fj ELSE fk)
    [] op = "stop" -> [Nxt(m) EXCEPT !.st = "stop"]
    [] op = "syscall" -> [m EXCEPT !.st = "sys"]
    [] op = "break" -> [m EXCEPT !.st = "break"]
    [] OTHER -> [m EXCEPT !.st = "ill"]

Branches == {"beqz", "bnez", "bceqz", "bcnez", "beq", "bne", "blt", "bge", "bltu", "bgeu", "b", "bl", "jirl"}
DivOps == {"div.w", "mod.w", "div.wu", "mod.wu", "div.d", "mod.d", "div.du", "mod.du"}
\* the ISA leaves the destination of a division by zero arbitrary
DivByZero(m, w, op) == op \in DivOps /\ (IF op \in {"div.d", "mod.d", "div.du", "mod.du"} THEN R(m, rk(w)) = Zero ELSE Zext32(R(m, rk(w))) = Zero)
=============================================================================
