-------------------------------- MODULE LSX --------------------------------
(* LoongArch64 floating-point arithmetic and the LSX (128-bit) and LASX      *)
(* (256-bit) vector instructions the emulator implements.  A machine is that *)
(* of LA64 with v, the 32 registers of 32 bytes, whose low 8 bytes are the   *)
(* scalar floating-point registers, and dw, how many low bytes of each       *)
(* register are defined (a scalar or 128-bit result leaves the rest open).   *)
(* A result is given as lanes, each a set of acceptable values: the standard *)
(* leaves the sign and payload of a NaN open, and NaNW stands for any quiet  *)
(* one.                                                                      *)
EXTENDS LA64, Float, Isa

(* name -> <<operation, bytes per lane, bytes per register>> *)
VT ==
   ("vadd.b" :> <<"add", 1, 16>>) @@ ("vadd.h" :> <<"add", 2, 16>>) @@ ("vadd.w" :> <<"add", 4, 16>>) @@ ("vadd.d" :> <<"add", 8, 16>>)
@@ ("vsub.b" :> <<"sub", 1, 16>>) @@ ("vsub.h" :> <<"sub", 2, 16>>) @@ ("vsub.w" :> <<"sub", 4, 16>>) @@ ("vsub.d" :> <<"sub", 8, 16>>)
@@ ("vmul.b" :> <<"mul", 1, 16>>) @@ ("vmul.h" :> <<"mul", 2, 16>>) @@ ("vmul.w" :> <<"mul", 4, 16>>) @@ ("vmul.d" :> <<"mul", 8, 16>>)
@@ ("vmadd.b" :> <<"madd", 1, 16>>) @@ ("vmadd.h" :> <<"madd", 2, 16>>) @@ ("vmadd.w" :> <<"madd", 4, 16>>) @@ ("vmadd.d" :> <<"madd", 8, 16>>)
@@ ("vmax.b" :> <<"max", 1, 16>>) @@ ("vmax.h" :> <<"max", 2, 16>>) @@ ("vmax.w" :> <<"max", 4, 16>>) @@ ("vmax.d" :> <<"max", 8, 16>>)
@@ ("vmin.b" :> <<"min", 1, 16>>) @@ ("vmin.h" :> <<"min", 2, 16>>) @@ ("vmin.w" :> <<"min", 4, 16>>) @@ ("vmin.d" :> <<"min", 8, 16>>)
@@ ("vmax.bu" :> <<"maxu", 1, 16>>) @@ ("vmax.hu" :> <<"maxu", 2, 16>>) @@ ("vmax.wu" :> <<"maxu", 4, 16>>) @@ ("vmax.du" :> <<"maxu", 8, 16>>)
@@ ("vmin.bu" :> <<"minu", 1, 16>>) @@ ("vmin.hu" :> <<"minu", 2, 16>>) @@ ("vmin.wu" :> <<"minu", 4, 16>>) @@ ("vmin.du" :> <<"minu", 8, 16>>)
@@ ("vaddi.bu" :> <<"addi", 1, 16>>) @@ ("vaddi.hu" :> <<"addi", 2, 16>>) @@ ("vaddi.wu" :> <<"addi", 4, 16>>) @@ ("vaddi.du" :> <<"addi", 8, 16>>)
@@ ("vslli.b" :> <<"slli", 1, 16>>) @@ ("vslli.h" :> <<"slli", 2, 16>>) @@ ("vslli.w" :> <<"slli", 4, 16>>) @@ ("vslli.d" :> <<"slli", 8, 16>>)
@@ ("vseqi.b" :> <<"seqi", 1, 16>>) @@ ("vseqi.h" :> <<"seqi", 2, 16>>) @@ ("vseqi.w" :> <<"seqi", 4, 16>>) @@ ("vseqi.d" :> <<"seqi", 8, 16>>)
@@ ("vslt.b" :> <<"slt", 1, 16>>) @@ ("vslt.h" :> <<"slt", 2, 16>>) @@ ("vslt.w" :> <<"slt", 4, 16>>) @@ ("vslt.d" :> <<"slt", 8, 16>>)
@@ ("vpcnt.b" :> <<"pcnt", 1, 16>>) @@ ("vpcnt.h" :> <<"pcnt", 2, 16>>) @@ ("vpcnt.w" :> <<"pcnt", 4, 16>>) @@ ("vpcnt.d" :> <<"pcnt", 8, 16>>)
@@ ("vilvl.b" :> <<"ilvl", 1, 16>>) @@ ("vilvl.h" :> <<"ilvl", 2, 16>>) @@ ("vilvl.w" :> <<"ilvl", 4, 16>>) @@ ("vilvl.d" :> <<"ilvl", 8, 16>>)
@@ ("vilvh.d" :> <<"ilvh", 8, 16>>) @@ ("vpickev.w" :> <<"pickev", 4, 16>>) @@ ("vseq.b" :> <<"seq", 1, 16>>) @@ ("vhaddw.d.w" :> <<"haddw", 8, 16>>)
@@ ("vreplgr2vr.b" :> <<"replgr", 1, 16>>) @@ ("vreplgr2vr.h" :> <<"replgr", 2, 16>>) @@ ("vreplgr2vr.w" :> <<"replgr", 4, 16>>) @@ ("vreplgr2vr.d" :> <<"replgr", 8, 16>>)
@@ ("vinsgr2vr.b" :> <<"insgr", 1, 16>>) @@ ("vinsgr2vr.h" :> <<"insgr", 2, 16>>) @@ ("vinsgr2vr.w" :> <<"insgr", 4, 16>>) @@ ("vinsgr2vr.d" :> <<"insgr", 8, 16>>)
@@ ("vpickve2gr.b" :> <<"pick2gr", 1, 16>>) @@ ("vpickve2gr.h" :> <<"pick2gr", 2, 16>>) @@ ("vpickve2gr.w" :> <<"pick2gr", 4, 16>>) @@ ("vpickve2gr.d" :> <<"pick2gr", 8, 16>>)
@@ ("vpickve2gr.bu" :> <<"pick2gru", 1, 16>>) @@ ("vpickve2gr.hu" :> <<"pick2gru", 2, 16>>) @@ ("vpickve2gr.wu" :> <<"pick2gru", 4, 16>>) @@ ("vpickve2gr.du" :> <<"pick2gru", 8, 16>>)
@@ ("vand.v" :> <<"and", 8, 16>>) @@ ("vor.v" :> <<"or", 8, 16>>) @@ ("vxor.v" :> <<"xor", 8, 16>>) @@ ("vnor.v" :> <<"nor", 8, 16>>) @@ ("vorn.v" :> <<"orn", 8, 16>>)
@@ ("vbitsel.v" :> <<"bitsel", 8, 16>>) @@ ("vshuf.b" :> <<"shufb", 1, 16>>) @@ ("vori.b" :> <<"ori", 1, 16>>) @@ ("vbitrevi.d" :> <<"bitrevi", 8, 16>>)
@@ ("vreplvei.d" :> <<"replvei", 8, 16>>) @@ ("vmsknz.b" :> <<"msknz", 1, 16>>) @@ ("vfrstpi.b" :> <<"frstpi", 1, 16>>)
@@ ("vsetanyeqz.b" :> <<"setanyeqz", 1, 16>>) @@ ("vsetallnez.b" :> <<"setallnez", 1, 16>>) @@ ("vldi" :> <<"ldi", 8, 16>>)
@@ ("vld" :> <<"ld", 8, 16>>) @@ ("vst" :> <<"st", 8, 16>>) @@ ("vldx" :> <<"ldx", 8, 16>>) @@ ("vstx" :> <<"stx", 8, 16>>)
@@ ("vfadd.d" :> <<"fadd", 8, 16>>) @@ ("vfmul.s" :> <<"fmul", 4, 16>>) @@ ("vfmul.d" :> <<"fmul", 8, 16>>) @@ ("vfdiv.d" :> <<"fdiv", 8, 16>>)
@@ ("vfmadd.d" :> <<"fmadd", 8, 16>>) @@ ("vfnmadd.d" :> <<"fnmadd", 8, 16>>) @@ ("vftintrz.w.s" :> <<"ftint", 4, 16>>) @@ ("vftintrz.l.d" :> <<"ftint", 8, 16>>)
@@ ("xvadd.d" :> <<"add", 8, 32>>) @@ ("xvsub.w" :> <<"sub", 4, 32>>) @@ ("xvhaddw.d.w" :> <<"haddw", 8, 32>>) @@ ("xvhaddw.q.d" :> <<"haddwq", 8, 32>>)
@@ ("xvmin.bu" :> <<"minu", 1, 32>>) @@ ("xvmax.bu" :> <<"maxu", 1, 32>>) @@ ("xvseq.b" :> <<"seq", 1, 32>>) @@ ("xvxor.v" :> <<"xor", 8, 32>>)
@@ ("xvfadd.d" :> <<"fadd", 8, 32>>) @@ ("xvfsub.d" :> <<"fsub", 8, 32>>) @@ ("xvfmul.d" :> <<"fmul", 8, 32>>) @@ ("xvfdiv.d" :> <<"fdiv", 8, 32>>)
@@ ("xvilvl.d" :> <<"ilvl", 8, 32>>) @@ ("xvilvh.d" :> <<"ilvh", 8, 32>>) @@ ("xvpickev.w" :> <<"pickev", 4, 32>>) @@ ("xvpickev.d" :> <<"pickev", 8, 32>>)
@@ ("xvpickod.d" :> <<"pickod", 8, 32>>) @@ ("xvpackev.d" :> <<"packev", 8, 32>>) @@ ("xvpackod.d" :> <<"packod", 8, 32>>)
@@ ("xvbitsel.v" :> <<"bitsel", 8, 32>>) @@ ("xvbitrevi.d" :> <<"bitrevi", 8, 32>>) @@ ("xvori.b" :> <<"ori", 1, 32>>) @@ ("xvxori.b" :> <<"xori", 1, 32>>)
@@ ("xvpermi.q" :> <<"permiq", 8, 32>>) @@ ("xvpermi.d" :> <<"permid", 8, 32>>) @@ ("xvpickve.w" :> <<"pickve", 4, 32>>) @@ ("xvmsknz.b" :> <<"msknz", 1, 32>>)
@@ ("xvreplgr2vr.b" :> <<"replgr", 1, 32>>) @@ ("xvpickve2gr.w" :> <<"pick2gr", 4, 32>>) @@ ("xvsetanyeqz.b" :> <<"setanyeqz", 1, 32>>) @@ ("xvseteqz.v" :> <<"seteqz", 1, 32>>)
@@ ("xvreplve.d" :> <<"replve", 8, 32>>) @@ ("xvldi" :> <<"ldi", 8, 32>>)
@@ ("xvld" :> <<"ld", 8, 32>>) @@ ("xvst" :> <<"st", 8, 32>>) @@ ("xvldx" :> <<"ldx", 8, 32>>) @@ ("xvstx" :> <<"stx", 8, 32>>)
@@ ("xvfmadd.s" :> <<"fmadd", 4, 32>>) @@ ("xvfmadd.d" :> <<"fmadd", 8, 32>>) @@ ("xvfmsub.s" :> <<"fmsub", 4, 32>>) @@ ("xvfmsub.d" :> <<"fmsub", 8, 32>>)
@@ ("xvfnmadd.s" :> <<"fnmadd", 4, 32>>) @@ ("xvfnmadd.d" :> <<"fnmadd", 8, 32>>) @@ ("xvfnmsub.s" :> <<"fnmsub", 4, 32>>) @@ ("xvfnmsub.d" :> <<"fnmsub", 8, 32>>)
@@ ("fadd.s" :> <<"fadd", 4, 4>>) @@ ("fsub.s" :> <<"fsub", 4, 4>>) @@ ("fmul.s" :> <<"fmul", 4, 4>>) @@ ("fdiv.s" :> <<"fdiv", 4, 4>>)
@@ ("fadd.d" :> <<"fadd", 8, 8>>) @@ ("fsub.d" :> <<"fsub", 8, 8>>) @@ ("fmul.d" :> <<"fmul", 8, 8>>) @@ ("fdiv.d" :> <<"fdiv", 8, 8>>)
@@ ("fmax.s" :> <<"fmax", 4, 4>>) @@ ("fmin.s" :> <<"fmin", 4, 4>>) @@ ("fmax.d" :> <<"fmax", 8, 8>>) @@ ("fmin.d" :> <<"fmin", 8, 8>>)
@@ ("fmadd.s" :> <<"fmadd", 4, 4>>) @@ ("fmsub.s" :> <<"fmsub", 4, 4>>) @@ ("fnmadd.s" :> <<"fnmadd", 4, 4>>) @@ ("fnmsub.s" :> <<"fnmsub", 4, 4>>)
@@ ("fmadd.d" :> <<"fmadd", 8, 8>>) @@ ("fmsub.d" :> <<"fmsub", 8, 8>>) @@ ("fnmadd.d" :> <<"fnmadd", 8, 8>>) @@ ("fnmsub.d" :> <<"fnmsub", 8, 8>>)
@@ ("ffint.d.l" :> <<"ffint.l", 8, 8>>) @@ ("ffint.d.w" :> <<"ffint.w", 8, 8>>) @@ ("ffint.s.w" :> <<"ffint.w", 4, 4>>) @@ ("ffint.s.l" :> <<"ffint.l", 4, 4>>)
@@ ("fcvt.s.d" :> <<"fcvt", 4, 4>>) @@ ("fcvt.d.s" :> <<"fcvt", 8, 8>>)
@@ ("ftintrz.w.s" :> <<"ftint", 4, 4>>) @@ ("ftintrz.l.d" :> <<"ftint", 8, 8>>) @@ ("ftintrz.w.d" :> <<"ftint.w.d", 4, 4>>) @@ ("ftintrz.l.s" :> <<"ftint.l.s", 8, 8>>)
@@ ("movgr2fr.w" :> <<"gr2fr", 4, 4>>) @@ ("movgr2fr.d" :> <<"gr2fr", 8, 8>>) @@ ("movfr2gr.s" :> <<"fr2gr", 4, 4>>) @@ ("movfr2gr.d" :> <<"fr2gr", 8, 8>>)
@@ ("fld.s" :> <<"ld", 4, 4>>) @@ ("fst.s" :> <<"st", 4, 4>>) @@ ("fld.d" :> <<"ld", 8, 8>>) @@ ("fst.d" :> <<"st", 8, 8>>)
FCmpConds == ("caf" :> 0) @@ ("saf" :> 1) @@ ("clt" :> 2) @@ ("slt" :> 3) @@ ("ceq" :> 4) @@ ("seq" :> 5) @@ ("cle" :> 6) @@ ("sle" :> 7) @@ ("cun" :> 8) @@ ("sun" :> 9)
   @@ ("cult" :> 10) @@ ("sult" :> 11) @@ ("cueq" :> 12) @@ ("sueq" :> 13) @@ ("cule" :> 14) @@ ("sule" :> 15) @@ ("cne" :> 16) @@ ("sne" :> 17)
   @@ ("cor" :> 20) @@ ("sor" :> 21) @@ ("cune" :> 24) @@ ("sune" :> 25)
VFCmp == {"vfcmp." \o c \o ".d" : c \in DOMAIN FCmpConds}
XVFCmp == {"xvfcmp." \o c \o ".d" : c \in DOMAIN FCmpConds}
VNames == DOMAIN VT \cup VFCmp \cup XVFCmp
VEntry(name) == IF name \in VFCmp THEN <<"fcmp", 8, 16>> ELSE IF name \in XVFCmp THEN <<"fcmp", 8, 32>> ELSE VT[name]

(* every mnemonic the emulator implements; any other instruction must be reported as illegal *)
ScalarNames == {T6[x] : x \in D6} \cup {T7[x] : x \in D7} \cup {T8[x] : x \in D8} \cup {T10[x] : x \in D10} \cup {T17[x] : x \in D17} \cup {T22[x] : x \in D22}
  \cup {"alsl.w", "alsl.wu", "alsl.d", "bytepick.d", "bstrpick.w", "bstrins.w", "bceqz", "bcnez", "fsel"}
  \cup {"fcmp." \o c \o "." \o s : c \in DOMAIN FCmpConds, s \in {"s", "d"}}
  \cup {a \o "_db." \o s : a \in {"amswap", "amadd", "amand", "amor", "amxor"}, s \in {"w", "d"}}
  \cup {"cpucfg", "rdtime.d", "movfcsr2gr"}
Implemented == VNames \cup ScalarNames

----------------------------------------------------------------------------
(* lanes: lane i (from 0) of n bytes of a register x *)
V(m, i) == m.v[i + 1]
LaneU(x, n, i) == CASE n = 1 -> <<x[i+1],0,0,0,0,0,0,0>>
  [] n = 2 -> <<x[2*i+1], x[2*i+2],0,0,0,0,0,0>>
  [] n = 4 -> <<x[4*i+1], x[4*i+2], x[4*i+3], x[4*i+4],0,0,0,0>>
  [] OTHER -> <<x[8*i+1], x[8*i+2], x[8*i+3], x[8*i+4], x[8*i+5], x[8*i+6], x[8*i+7], x[8*i+8]>>
SextN(w, n) == CASE n = 1 -> Sext8(w) [] n = 2 -> Sext16(w) [] n = 4 -> Sext32(w) [] OTHER -> w
ZextN(w, n) == CASE n = 1 -> Zext8(w) [] n = 2 -> Zext16(w) [] n = 4 -> Zext32(w) [] OTHER -> w
LaneS(x, n, i) == SextN(LaneU(x, n, i), n)
RECURSIVE Ones1(_, _)
Ones1(w, i) == IF i > 63 THEN 0 ELSE Bit(w, i) + Ones1(w, i + 1)
ui(w, n) == Fld(w, 10, n)
ra(w) == Fld(w, 15, 5)
\* the 64-bit element a vldi immediate denotes ("open" for the reserved modes)
Rep(w, n) == [k \in 1..8 |-> w[((k - 1) % n) + 1]]
LdiValue(i13) ==
  LET i8 == i13 % 256
      i10 == LET v == i13 % 1024 IN OfInt(IF v >= 512 THEN v - 1024 ELSE v)
      mode == (i13 \div 256) % 16
      b7 == i8 \div 128   b6 == (i8 \div 64) % 2   lo == i8 % 64
      \* single and double precision values of the 8-bit immediate
      sg == <<0, 0, 8 * (lo % 32), (lo \div 32) + (IF b6 = 1 THEN 62 ELSE 64) + 128 * b7>>
  IN IF i13 < 4096 THEN Rep(CASE (i13 \div 1024) = 0 -> OfInt(i8) [] OTHER -> i10, CASE (i13 \div 1024) = 0 -> 1 [] (i13 \div 1024) = 1 -> 2 [] (i13 \div 1024) = 2 -> 4 [] OTHER -> 8)
     ELSE CASE mode = 0 -> Rep(<<i8, 0, 0, 0>>, 4) [] mode = 1 -> Rep(<<0, i8, 0, 0>>, 4) [] mode = 2 -> Rep(<<0, 0, i8, 0>>, 4) [] mode = 3 -> Rep(<<0, 0, 0, i8>>, 4)
            [] mode = 4 -> Rep(<<i8, 0>>, 2) [] mode = 5 -> Rep(<<0, i8>>, 2) [] mode = 6 -> Rep(<<255, i8, 0, 0>>, 4) [] mode = 7 -> Rep(<<255, 255, i8, 0>>, 4)
            [] mode = 8 -> Rep(<<i8>>, 1) [] mode = 9 -> [k \in 1..8 |-> IF (i8 \div P2(k - 1)) % 2 = 1 THEN 255 ELSE 0]
            [] mode = 10 -> Rep(sg, 4) [] mode = 11 -> sg \o <<0, 0, 0, 0>>
            [] mode = 12 -> <<0, 0, 0, 0, 0, 0, (lo % 64) + (IF b6 = 1 THEN 192 ELSE 0), (IF b6 = 1 THEN 63 ELSE 64) + 128 * b7>>
            [] OTHER -> <<>>

----------------------------------------------------------------------------
(* results *)
Plain(m, d, n, cnt, f(_)) == LET r == TLCEval([i \in 0..(cnt - 1) |-> f(i)])
                             IN [m EXCEPT !.v[d + 1] = [k \in 1..32 |-> IF k <= n * cnt THEN r[(k - 1) \div n][((k - 1) % n) + 1] ELSE @[k]], !.dw[d + 1] = n * cnt]
\* floating-point lanes: f(i) is the set of acceptable words; fl records them for the comparison
Lanes(m, d, n, cnt, f(_)) == LET r == TLCEval([i \in 0..(cnt - 1) |-> f(i)])
                                 p == Plain(m, d, n, cnt, LAMBDA i : CHOOSE x \in r[i] : TRUE)
                             IN [p EXCEPT !.fl = Append(@, [d |-> d, n |-> n, r |-> r])]
Flag(m, c, b) == [m EXCEPT !.cc[c + 1] = IF b THEN 1 ELSE 0]
ReadN(m, a, n) == LET p == MIdx(ToInt(a)) IN SubSeq(m.mem, p, p + n - 1)
VLoad(m, a, n, K(_)) ==
  IF ~InRange(a, RO) THEN Fault(m, a)
  ELSE LET p == MIdx(ToInt(a)) IN IF p = 0 \/ MIdx(ToInt(a) + n - 1) # p + n - 1 THEN Unmod(m) ELSE K(SubSeq(m.mem, p, p + n - 1))
VStore(m, a, n, x) ==
  IF ~InRange(a, RW) THEN Fault(m, a)
  ELSE LET p == MIdx(ToInt(a)) IN
       IF p = 0 \/ MIdx(ToInt(a) + n - 1) # p + n - 1 THEN Unmod(m)
       ELSE [m EXCEPT !.mem = SubSeq(@, 1, p - 1) \o SubSeq(x, 1, n) \o SubSeq(@, p + n, Len(@))]
WG(m, d, v) == IF d = 0 THEN m ELSE [m EXCEPT !.r[d] = v]

ExecV(m, w, name) ==
  LET t == VEntry(name)   k == t[1]   n == t[2]   wd == t[3]   cnt == wd \div n
      d == rd(w)   j == V(m, rj(w))   kk == V(m, rk(w))   a == V(m, ra(w))   old == V(m, d)
      dbl == n = 8
      J(i) == LaneU(j, n, i)   K(i) == LaneU(kk, n, i)   A(i) == LaneU(a, n, i)
      Js(i) == LaneS(j, n, i)  Ks(i) == LaneS(kk, n, i)
      P(f(_)) == Plain(m, d, n, cnt, f)
      Fp(f(_)) == Lanes(m, d, n, cnt, LAMBDA i : {f(i)})
      All(b) == IF b THEN Ones ELSE Zero
      per == 16 \div n                      \* lanes of one 128-bit part
      base(i) == (i \div per) * per         \* first lane of the part holding lane i
      ea == Add(R(m, rj(w)), OfInt(si12(w)))
      ex == Add(R(m, rj(w)), R(m, rk(w)))
      \* picks from the two operands within each 128-bit part: low half from vk, high half from vj
      Pick2(o) == P(LAMBDA i : LET q == i - base(i) IN IF 2 * q < per THEN K(base(i) + 2 * q + o) ELSE J(base(i) + 2 * q - per + o))
      Inter(o) == P(LAMBDA i : LET q == i - base(i) IN IF q % 2 = 0 THEN K(base(i) + (q \div 2) + o) ELSE J(base(i) + (q \div 2) + o))
  IN
  CASE k = "add" -> P(LAMBDA i : Add(J(i), K(i)))
    [] k = "sub" -> P(LAMBDA i : Sub(J(i), K(i)))
    [] k = "mul" -> P(LAMBDA i : Mul(J(i), K(i)))
    [] k = "madd" -> P(LAMBDA i : Add(LaneU(old, n, i), Mul(J(i), K(i))))
    [] k = "max" -> P(LAMBDA i : IF SLt(Js(i), Ks(i)) THEN K(i) ELSE J(i))
    [] k = "min" -> P(LAMBDA i : IF SLt(Js(i), Ks(i)) THEN J(i) ELSE K(i))
    [] k = "maxu" -> P(LAMBDA i : IF ULt(J(i), K(i)) THEN K(i) ELSE J(i))
    [] k = "minu" -> P(LAMBDA i : IF ULt(J(i), K(i)) THEN J(i) ELSE K(i))
    [] k = "addi" -> P(LAMBDA i : AddInt(J(i), ui(w, 5)))
    [] k = "slli" -> P(LAMBDA i : Shl(J(i), ui(w, CASE n = 1 -> 3 [] n = 2 -> 4 [] n = 4 -> 5 [] OTHER -> 6)))
    [] k = "bitrevi" -> P(LAMBDA i : BXor(J(i), Shl(OfInt(1), ui(w, 6))))
    [] k = "seq" -> P(LAMBDA i : All(J(i) = K(i)))
    [] k = "seqi" -> P(LAMBDA i : All(Js(i) = OfInt(SFld(w, 10, 5))))
    [] k = "slt" -> P(LAMBDA i : All(SLt(Js(i), Ks(i))))
    [] k = "pcnt" -> P(LAMBDA i : OfInt(Ones1(J(i), 0)))
    [] k = "haddw" -> P(LAMBDA i : Add(LaneS(j, n \div 2, 2 * i + 1), LaneS(kk, n \div 2, 2 * i)))
    [] k = "haddwq" -> LET lo(i) == Add(J(i + 1), K(i))
                           sg(x) == IF IsNeg(x) THEN Ones ELSE Zero
                       IN P(LAMBDA i : IF i % 2 = 0 THEN lo(i) ELSE AddC(sg(J(i)), sg(K(i - 1)), IF ULt(lo(i - 1), J(i)) THEN 1 ELSE 0))
    [] k = "ilvl" -> Inter(0)
    [] k = "ilvh" -> Inter(per \div 2)
    [] k = "pickev" -> Pick2(0)
    [] k = "pickod" -> Pick2(1)
    [] k = "packev" -> P(LAMBDA i : IF i % 2 = 0 THEN K(i) ELSE J(i - 1))
    [] k = "packod" -> P(LAMBDA i : IF i % 2 = 0 THEN K(i + 1) ELSE J(i))
    [] k = "and" -> P(LAMBDA i : BAnd(J(i), K(i)))
    [] k = "or" -> P(LAMBDA i : BOr(J(i), K(i)))
    [] k = "xor" -> P(LAMBDA i : BXor(J(i), K(i)))
    [] k = "nor" -> P(LAMBDA i : BNot(BOr(J(i), K(i))))
    [] k = "orn" -> P(LAMBDA i : BOr(J(i), BNot(K(i))))
    [] k = "ori" -> P(LAMBDA i : BOr(J(i), OfInt(ui(w, 8))))
    [] k = "xori" -> P(LAMBDA i : BXor(J(i), OfInt(ui(w, 8))))
    [] k = "bitsel" -> P(LAMBDA i : BOr(BAnd(J(i), BNot(A(i))), BAnd(K(i), A(i))))
    [] k = "shufb" -> \* index bits 6 and 7 set: the element is unspecified
         Lanes(m, d, 1, cnt, LAMBDA i : LET q == a[i + 1] IN IF q >= 64 THEN {<<x,0,0,0,0,0,0,0>> : x \in 0..255} ELSE {IF q % 32 < 16 THEN LaneU(kk, 1, q % 16) ELSE LaneU(j, 1, q % 16)})
    [] k = "replvei" -> P(LAMBDA i : J(ui(w, 1)))
    [] k = "replve" -> P(LAMBDA i : J(base(i) + (R(m, rk(w))[1] % per)))
    [] k = "replgr" -> P(LAMBDA i : R(m, rj(w)))
    [] k = "insgr" -> LET at == ui(w, CASE n = 1 -> 4 [] n = 2 -> 3 [] n = 4 -> 2 [] OTHER -> 1) IN P(LAMBDA i : IF i = at THEN R(m, rj(w)) ELSE LaneU(old, n, i))
    [] k = "pick2gr" -> WG(m, d, Js(ui(w, IF wd = 32 THEN 3 ELSE CASE n = 1 -> 4 [] n = 2 -> 3 [] n = 4 -> 2 [] OTHER -> 1)))
    [] k = "pick2gru" -> WG(m, d, J(ui(w, CASE n = 1 -> 4 [] n = 2 -> 3 [] n = 4 -> 2 [] OTHER -> 1)))
    [] k = "pickve" -> P(LAMBDA i : IF i = 0 THEN J(ui(w, 3)) ELSE Zero)
    [] k = "permiq" -> LET s(q) == LET c == Fld(w, 10 + 4 * q, 2) IN IF c >= 2 THEN [x |-> old, b |-> 2 * (c - 2)] ELSE [x |-> j, b |-> 2 * c]
                       IN P(LAMBDA i : LET y == s(i \div 2) IN LaneU(y.x, 8, y.b + (i % 2)))
    [] k = "permid" -> P(LAMBDA i : J(Fld(w, 10 + 2 * i, 2)))
    [] k = "msknz" -> P(LAMBDA i : LET q == i - base(i)
                                       bit(z) == IF j[base(i) + 8 * q + z + 1] # 0 THEN P2(z) ELSE 0
                                   IN IF q < 2 THEN OfInt(bit(0) + bit(1) + bit(2) + bit(3) + bit(4) + bit(5) + bit(6) + bit(7)) ELSE Zero)
    [] k = "frstpi" -> LET neg == {i \in 0..15 : j[i + 1] >= 128}
                           x == IF neg = {} THEN 16 ELSE CHOOSE i \in neg : \A z \in neg : i <= z
                       IN P(LAMBDA i : IF i = ui(w, 5) % 16 THEN OfInt(x) ELSE LaneU(old, 1, i))
    [] k = "setanyeqz" -> Flag(m, d % 8, \E i \in 1..wd : j[i] = 0)
    [] k = "setallnez" -> Flag(m, d % 8, \A i \in 1..wd : j[i] # 0)
    [] k = "seteqz" -> Flag(m, d % 8, \A i \in 1..wd : j[i] = 0)
    [] k = "ldi" -> LET x == LdiValue(Fld(w, 5, 13)) IN IF x = <<>> THEN Unmod(m) ELSE P(LAMBDA i : x)
    [] k = "ld" -> VLoad(m, ea, wd, LAMBDA x : Plain(m, d, 1, wd, LAMBDA i : <<x[i + 1]>>))
    [] k = "ldx" -> VLoad(m, ex, wd, LAMBDA x : Plain(m, d, 1, wd, LAMBDA i : <<x[i + 1]>>))
    [] k = "st" -> VStore(m, ea, wd, old)
    [] k = "stx" -> VStore(m, ex, wd, old)
    [] k = "fadd" -> Fp(LAMBDA i : FAdd(J(i), K(i), dbl))
    [] k = "fsub" -> Fp(LAMBDA i : FSub(J(i), K(i), dbl))
    [] k = "fmul" -> Fp(LAMBDA i : FMul(J(i), K(i), dbl))
    [] k = "fdiv" -> Fp(LAMBDA i : FDiv(J(i), K(i), dbl))
    [] k = "fmadd" -> Fp(LAMBDA i : FusedMA(J(i), K(i), A(i), dbl))
    [] k = "fmsub" -> Fp(LAMBDA i : FusedMS(J(i), K(i), A(i), dbl))
    [] k = "fnmadd" -> Fp(LAMBDA i : FNegR(FusedMA(J(i), K(i), A(i), dbl), dbl))
    [] k = "fnmsub" -> Fp(LAMBDA i : FNegR(FusedMS(J(i), K(i), A(i), dbl), dbl))
    [] k = "fmax" -> Lanes(m, d, n, 1, LAMBDA i : MaxSet(J(i), K(i), dbl, FALSE))
    [] k = "fmin" -> Lanes(m, d, n, 1, LAMBDA i : MaxSet(J(i), K(i), dbl, TRUE))
    [] k = "fcmp" -> P(LAMBDA i : All(FCond(Fld(w, 15, 5), J(i), K(i), TRUE) = 1))
    [] k = "ffint.l" -> Fp(LAMBDA i : FromInt(LaneU(j, 8, 0), dbl))
    [] k = "ffint.w" -> Fp(LAMBDA i : FromInt(LaneS(j, 4, 0), dbl))
    [] k = "fcvt" -> Fp(LAMBDA i : Convert(LaneU(j, 12 - n, 0), ~dbl, dbl))
    [] k = "ftint" -> P(LAMBDA i : ToIntRZ(J(i), dbl, 8 * n))
    [] k = "ftint.w.d" -> P(LAMBDA i : ToIntRZ(LaneU(j, 8, 0), TRUE, 32))
    [] k = "ftint.l.s" -> P(LAMBDA i : ToIntRZ(LaneU(j, 4, 0), FALSE, 64))
    [] k = "gr2fr" -> P(LAMBDA i : R(m, rj(w)))
    [] k = "fr2gr" -> WG(m, d, Js(0))
    [] OTHER -> [m EXCEPT !.st = "ill"]
=============================================================================
