------------------------------- MODULE MCCLib -------------------------------
(* The C library specification against the standard's own words, for every  *)
(* memory of up to five bytes over three values and every argument around   *)
(* it: comparisons are antisymmetric and agree with each other, lengths     *)
(* count what lies before the terminator, a copy compares equal to what was *)
(* there, nothing outside readable memory decides a result.                 *)
EXTENDS CLib, FiniteSets, TLC
CONSTANT Size
Vals == {0, 1, 200}
VARIABLES m, p, q, n
Mems == {[size |-> Size, ro |-> r, rw |-> w, fill |-> f, win |-> <<[at |-> 1, b |-> b]>>] : r \in 0..1, w \in 1..2, f \in {0, 7}, b \in [1..(Size - 2) -> Vals]}
Init == m \in Mems /\ p \in -1..Size /\ q \in -1..Size /\ n \in {-1} \cup 0..(Size + 1)
Next == UNCHANGED <<m, p, q, n>>
P == OfInt(p)  Q == OfInt(q)  N == OfInt(n)
C(op, a, b, c) == Call(m, op, a, b, c)
\* independent readings: contents as a plain function of addresses
Has(a) == a >= m.ro /\ a < Size
At(a) == IF a >= 1 /\ a < Size - 1 THEN m.win[1].b[a] ELSE m.fill
Lim == IF n < 0 THEN 99 ELSE n
StrLenIs(k) == (\A i \in 0..k : Has(p + i)) /\ At(p + k) = 0 /\ \A i \in 0..(k - 1) : At(p + i) # 0
Lens == /\ LET c == C("strlen", P, Zero, Zero) IN (c.must <=> \E k \in 0..Size : StrLenIs(k)) /\ (c.must => StrLenIs(ToInt(c.ret)))
        /\ LET c == C("strnlen", P, N, Zero)  s == C("strlen", P, Zero, Zero) IN
           /\ s.must /\ Lim > ToInt(s.ret) => c.must /\ c.ret = s.ret
           /\ c.must /\ ~(s.must /\ ToInt(s.ret) <= Lim) => n >= 0 /\ ToInt(c.ret) = n /\ \A i \in 0..(n - 1) : Has(p + i) /\ At(p + i) # 0
           /\ n = 0 => c.must
Cmps == /\ \A op \in {"memcmp", "strcmp", "strncmp"} : C(op, P, Q, N).sign = -C(op, Q, P, N).sign /\ C(op, P, Q, N).must = C(op, Q, P, N).must
        /\ p = q => \A op \in {"memcmp", "strcmp", "strncmp"} : C(op, P, Q, N).sign = 0
        /\ n = 0 => C("memcmp", P, Q, N).must /\ C("strncmp", P, Q, N).must /\ C("strncmp", P, Q, N).sign = 0
        /\ C("strncmp", P, Q, N).must /\ C("strcmp", P, Q, N).must /\ C("strncmp", P, Q, N).sign # 0 => C("strncmp", P, Q, N).sign = C("strcmp", P, Q, N).sign
        \* equal strings have equal lengths and bytes
        /\ LET c == C("strcmp", P, Q, N)  s == C("strlen", P, Zero, Zero)  t == C("strlen", Q, Zero, Zero) IN
             c.must /\ c.sign = 0 /\ p # q => s.must /\ t.must /\ s.ret = t.ret /\ C("memcmp", P, Q, s.ret).sign = 0
        \* the sign is that of the first differing byte, as unsigned
        /\ LET c == C("memcmp", P, Q, N) IN c.must /\ c.sign # 0 => \E i \in 0..(n - 1) : (\A j \in 0..(i - 1) : At(p + j) = At(q + j)) /\ c.sign = Sign(At(p + i) - At(q + i))
        /\ LET c == C("memcmp", P, Q, N) IN c.must /\ c.sign = 0 => \A i \in 0..(n - 1) : At(p + i) = At(q + i)
Chr == \A v \in Vals : LET c == C("memchr", P, OfInt(v + 256), N) IN
         /\ c.must /\ c.ret # Zero => LET k == ToInt(c.ret) IN k >= p /\ Has(k) /\ At(k) = v /\ \A i \in p..(k - 1) : At(i) # v
         /\ c.must /\ c.ret = Zero /\ p # 0 => n = 0 \/ (n > 0 /\ \A i \in p..(p + n - 1) : Has(i) /\ At(i) # v)
         /\ (n >= 0 /\ Has(p) /\ p + n <= Size => c.must) /\ (n # 0 /\ ~Has(p) => ~c.must)
Moves == /\ LET c == C("memmove", P, Q, N) IN
              /\ c.must => c.ret = P
              /\ c.must /\ n > 0 => \A i \in 0..(n - 1) : p + i >= m.rw /\ p + i < Size /\ Has(q + i) /\ Stored(m, c.write, i) = At(q + i)
              /\ ~c.must => c.write.n = 0 /\ n # 0
         /\ LET c == C("memset", P, OfInt(511), N) IN c.must /\ n > 0 => p >= m.rw /\ p + n <= Size /\ \A i \in 0..(n - 1) : Stored(m, c.write, i) = 255
Laws == Lens /\ Cmps /\ Chr /\ Moves
=============================================================================
