------------------------------ MODULE CallArgs ------------------------------
(* The LoongArch calling convention as the host follows it: where each      *)
(* argument of a call is found when the function starts, and what its       *)
(* result is. An argument is [k, w, sg, b, ptr]: k "int" with w bytes b,    *)
(* "float", "mem" (a string or structure with contents b, passed by         *)
(* address) or "gss" (a guest string object with text b).                   *)
EXTENDS Word, FiniteSets
IsF(a) == a.k = "float"
\* floating-point arguments before the i-th
FBefore(args, i) == Cardinality({j \in 1..(i - 1) : IsF(args[j])})
Over8(n) == IF n > 8 THEN n - 8 ELSE 0
\* arguments before the i-th that take integer slots: others, and floats beyond the eight registers
JBefore(args, i) == (i - 1 - FBefore(args, i)) + Over8(FBefore(args, i))
Slot(args, i) ==
  IF IsF(args[i]) /\ FBefore(args, i) < 8 THEN [r |-> "f", n |-> FBefore(args, i)]
  ELSE LET j == JBefore(args, i) IN IF j < 8 THEN [r |-> "i", n |-> j] ELSE [r |-> "s", n |-> j - 8]
StackSlots(args) == Over8(JBefore(Append(args, [k |-> "end"]), Len(args) + 1))
\* widening of w-byte values: by signedness, except that 32-bit values are sign-extended
Widen(b, w, sg) ==
  CASE w = 1 -> LET v == <<b[1], 0, 0, 0, 0, 0, 0, 0>> IN IF sg THEN Sext8(v) ELSE v
    [] w = 2 -> LET v == <<b[1], b[2], 0, 0, 0, 0, 0, 0>> IN IF sg THEN Sext16(v) ELSE v
    [] w = 4 -> Sext32(<<b[1], b[2], b[3], b[4], 0, 0, 0, 0>>)
    [] OTHER -> SubSeq(b, 1, 8)
\* the state at entry: ir, fr (eight words each), sp, and stack, the bytes from sp to the top
NoValue == <<-1>>
Value(e, s) == CASE s.r = "i" -> e.ir[s.n + 1] [] s.r = "f" -> e.fr[s.n + 1]
                 [] s.r = "s" -> IF 8 * s.n + 8 <= Len(e.stack) THEN SubSeq(e.stack, 8 * s.n + 1, 8 * s.n + 8) ELSE NoValue
Offset(e, p) == LET d == Sub(p, e.sp) IN IF p # NoValue /\ IsSmall(d) /\ ToInt(d) < Len(e.stack) THEN ToInt(d) ELSE -1
SizeOf(a) == CASE a.k = "mem" -> Len(a.b) [] a.k = "gss" -> 32 [] OTHER -> 0
InMem(a) == a.k \in {"mem", "gss"}
At(e, o, n) == SubSeq(e.stack, o + 1, o + n)
ArgProb(e, i) ==
  LET a == e.args[i]  v == Value(e, Slot(e.args, i))  o == IF InMem(a) THEN Offset(e, v) ELSE 0 IN
  IF v = NoValue THEN "an argument is not on the stack"
  ELSE CASE a.k = "int" -> IF v = Widen(a.b, a.w, a.sg) THEN "" ELSE "an integer argument differs"
         [] a.k = "float" -> IF SubSeq(v, 1, a.w) = a.b THEN "" ELSE "a floating-point argument differs"
         [] OTHER ->
            IF o < 0 \/ o + SizeOf(a) > Len(e.stack) THEN "an argument's address is not in the call's stack space"
            ELSE IF v[1] % 16 # 0 THEN "an argument is not aligned"
            ELSE IF a.k = "mem" THEN (IF At(e, o, Len(a.b)) = a.b THEN "" ELSE "an argument's contents differ")
            ELSE LET n == Len(a.b) IN
                 IF At(e, o + 8, 8) # OfInt(n) THEN "a string object's size differs"
                 ELSE IF n > 15 THEN (IF At(e, o, 8) = a.ptr THEN "" ELSE "a string object's pointer differs")
                 ELSE IF At(e, o, 8) = AddInt(v, 16) /\ At(e, o + 16, n + 1) = a.b \o <<0>> THEN "" ELSE "a short string object differs"
Range(e, i) == LET o == Offset(e, Value(e, Slot(e.args, i))) IN <<o, o + SizeOf(e.args[i])>>
Apart(x, y) == x[2] <= y[1] \/ y[2] <= x[1]
EntryProb(e) ==
  LET bad == {i \in DOMAIN e.args : ArgProb(e, i) # ""}  mem == {i \in DOMAIN e.args : InMem(e.args[i])} IN
  IF e.sp[1] % 16 # 0 THEN "the stack pointer is not aligned"
  ELSE IF ULt(e.sp0, e.sp) THEN "the stack pointer is above the caller's"
  ELSE IF bad # {} THEN ArgProb(e, CHOOSE i \in bad : \A j \in bad : i <= j)
  ELSE IF \E i \in mem : ~Apart(Range(e, i), <<0, 8 * StackSlots(e.args)>>) THEN "an argument's contents overlap the stack arguments"
  ELSE IF \E i, j \in mem : i < j /\ ~Apart(Range(e, i), Range(e, j)) THEN "the contents of two arguments overlap" ELSE ""
\* a result of rw bytes
Result(rk, rw, rs, a0, fa0) ==
  CASE rk = "float" -> SubSeq(fa0, 1, 4) \o <<0, 0, 0, 0>> [] rk = "double" -> fa0
    [] OTHER -> IF rw = 4 /\ ~rs THEN Zext32(a0) ELSE Widen(a0, rw, rs)
=============================================================================
