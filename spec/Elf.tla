--------------------------------- MODULE Elf ---------------------------------
(* What an executable file means: which files must be refused, which must   *)
(* be accepted, and what the machine must look like afterwards; and what    *)
(* the initial process stack must contain. The file is a sequence of bytes. *)
(* Sixty-four bit fields are read as numbers saturating at Big, which is    *)
(* larger than any file or guest memory considered: sums of two such        *)
(* numbers cannot wrap here, so arithmetic that wraps in an implementation  *)
(* is not hidden by wrapping in the specification too.                      *)
EXTENDS Integers, Sequences, FiniteSets
Big == 1073741824
Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b
Page(x) == ((x + 4095) \div 4096) * 4096
Slice(f, o, n) == SubSeq(f, o + 1, o + n)
U16(f, o) == f[o+1] + 256 * f[o+2]
U32(f, o) == IF f[o+4] >= 64 THEN Big ELSE f[o+1] + 256 * f[o+2] + 65536 * f[o+3] + 16777216 * f[o+4]
Cap8(w) == IF w[5] # 0 \/ w[6] # 0 \/ w[7] # 0 \/ w[8] # 0 \/ w[4] >= 64 THEN Big ELSE w[1] + 256 * w[2] + 65536 * w[3] + 16777216 * w[4]
U64(f, o) == Cap8(Slice(f, o, 8))

(* ---- headers and segments -------------------------------------------- *)
HeaderOk(f) == /\ Len(f) >= 64 /\ Slice(f, 0, 4) = <<127, 69, 76, 70>> /\ U16(f, 18) = 258
               /\ U16(f, 56) \in 1..256 /\ U16(f, 54) = 56
               /\ U64(f, 32) + 56 * U16(f, 56) <= Len(f)
Seg(f, p) == [off |-> U64(f, p + 8), vaddr |-> U64(f, p + 16), filesz |-> U64(f, p + 32), memsz |-> U64(f, p + 40),
              type |-> Slice(f, p, 4), x |-> f[p + 5] % 2 = 1, w |-> (f[p + 5] \div 2) % 2 = 1]
PhTable(f) == [i \in 1..U16(f, 56) |-> Seg(f, U64(f, 32) + 56 * (i - 1))]
Loads(f) == SelectSeq(PhTable(f), LAMBDA s: s.type = <<1, 0, 0, 0>>)
SegBad(f, s, max) == \/ s.memsz > 0 /\ s.vaddr + s.memsz > max
                     \/ s.filesz > s.memsz
                     \/ s.filesz > 0 /\ s.off + s.filesz > Len(f)
Disjoint(L) == \A i, j \in DOMAIN L: i < j => \/ L[i].memsz = 0 \/ L[j].memsz = 0
                                             \/ L[i].vaddr + L[i].memsz <= L[j].vaddr \/ L[j].vaddr + L[j].memsz <= L[i].vaddr
Real(L) == {i \in DOMAIN L: L[i].memsz > 0}
ImageEnd(L) == CHOOSE e \in {L[i].vaddr + L[i].memsz: i \in Real(L)}: \A i \in Real(L): L[i].vaddr + L[i].memsz <= e
ImageStart(L) == CHOOSE a \in {L[i].vaddr: i \in Real(L)}: \A i \in Real(L): a <= L[i].vaddr

(* ---- sections and symbols -------------------------------------------- *)
NoSections(f) == U64(f, 40) = 0 \/ U16(f, 60) = 0
TableOk(f) == U64(f, 40) + 64 * U16(f, 60) <= Len(f)
Sec(f, i) == LET p == U64(f, 40) + 64 * i IN [type |-> U32(f, p + 4), off |-> U64(f, p + 24), size |-> U64(f, p + 32), link |-> U32(f, p + 40)]
SymSecs(f) == {i \in 0..(U16(f, 60) - 1): Sec(f, i).type \in {2, 11}}
InFile(f, s) == s.off + s.size <= Len(f)
Entries(f, i) == LET s == Sec(f, i) IN {s.off + 24 * k: k \in 0..((s.size \div 24) - 1)}
NameEnd(f, t, n) == \* length of the name at offset n of string table t, or -1 if it does not end inside
  IF n >= t.size \/ \A k \in n..(t.size - 1): f[t.off + k + 1] # 0 THEN 0 - 1
  ELSE (CHOOSE k \in n..(t.size - 1): f[t.off + k + 1] = 0 /\ \A j \in n..(k - 1): f[t.off + j + 1] # 0) - n
SectionsOk(f) ==
  NoSections(f) \/ /\ TableOk(f)
                   /\ \A t \in {2, 11}: Cardinality({i \in SymSecs(f): Sec(f, i).type = t}) <= 1
                   /\ \A i \in SymSecs(f): LET s == Sec(f, i) IN
                        /\ InFile(f, s) /\ s.link < U16(f, 60)
                        /\ LET t == Sec(f, s.link) IN t.type = 3 /\ InFile(f, t) /\ \A e \in Entries(f, i): NameEnd(f, t, U32(f, e)) >= 0
Symbols(f) == IF NoSections(f) THEN {} ELSE
  UNION {LET t == Sec(f, Sec(f, i).link) IN
         {[n |-> Slice(f, t.off + U32(f, e), NameEnd(f, t, U32(f, e))), a |-> Slice(f, e + 8, 8), z |-> Slice(f, e + 16, 8)]:
            e \in {e \in Entries(f, i): f[e + 5] % 16 \in {1, 2} /\ Slice(f, e + 8, 8) # <<0,0,0,0,0,0,0,0>> /\ NameEnd(f, t, U32(f, e)) > 0}}: i \in SymSecs(f)}

(* ---- verdicts ---------------------------------------------------------- *)
MustReject(f, e) ==
  \/ ~HeaderOk(f)
  \/ LET L == Loads(f) IN \/ \E i \in DOMAIN L: SegBad(f, L[i], e.max)
                          \/ Real(L) = {}
                          \/ ImageEnd(L) + e.brk + e.stack > e.max
MustAccept(f, e) ==
  /\ ~MustReject(f, e)
  /\ LET L == Loads(f) IN
     /\ f[5] = 2 /\ f[6] = 1 /\ U16(f, 16) = 2
     /\ \A i \in 1..Len(PhTable(f)): PhTable(f)[i].type # <<3, 0, 0, 0>>
     /\ Real(L) = DOMAIN L /\ Disjoint(L)
     /\ Page(ImageEnd(L)) + Page(e.brk) + Page(e.stack) <= e.max
     /\ SectionsOk(f)

(* ---- the machine after loading ----------------------------------------- *)
Covers(s, a) == s.vaddr <= a /\ a < s.vaddr + s.filesz
MayBe(f, L, a) == LET c == {i \in DOMAIN L: Covers(L[i], a)} IN IF c = {} THEN {0} ELSE {f[L[i].off + (a - L[i].vaddr) + 1]: i \in c}
RunOk(f, L, r) == \A k \in 1..Len(r[2]): r[2][k] \in MayBe(f, L, r[1] + k - 1)
RECURSIVE NonZero(_, _, _)
NonZero(s, i, n) == IF i > Len(s) THEN n ELSE NonZero(s, i + 1, IF s[i] # 0 THEN n + 1 ELSE n)
RECURSIVE SumRuns(_, _, _)
SumRuns(m, i, n) == IF i > Len(m) THEN n ELSE SumRuns(m, i + 1, n + NonZero(m[i][2], 1, 0))
RECURSIVE SumSegs(_, _, _, _)
SumSegs(f, L, i, n) == IF i > Len(L) THEN n ELSE SumSegs(f, L, i + 1, n + (IF L[i].filesz = 0 THEN 0 ELSE NonZero(Slice(f, L[i].off, L[i].filesz), 1, 0)))
ImageOk(f, L, mem) == /\ \A i \in 1..Len(mem): RunOk(f, L, mem[i])
                      /\ Disjoint(L) => SumRuns(mem, 1, 0) = SumSegs(f, L, 1, 0)
Writable(L) == {i \in Real(L): L[i].w}
LowestW(L, heap) == IF Writable(L) = {} THEN heap ELSE CHOOSE a \in {L[i].vaddr: i \in Writable(L)}: \A i \in Writable(L): a <= L[i].vaddr
BoundsOk(L, e) ==
  LET w == LowestW(L, e.heap) IN
  /\ e.data <= w /\ \A i \in Real(L): ~L[i].w /\ L[i].vaddr + L[i].memsz <= w => L[i].vaddr + L[i].memsz <= e.data
  /\ e.rodata <= ImageStart(L) /\ (Real(L) = DOMAIN L => e.rodata = ImageStart(L))
Apart(a1, n1, a2, n2) == n1 = 0 \/ n2 = 0 \/ a1 + n1 <= a2 \/ a2 + n2 <= a1
LayoutOk(L, e) ==
  LET end == ImageEnd(L) IN
  /\ e.heap >= end /\ e.brka >= e.heap /\ e.top - e.stack >= end /\ e.mstart >= end
  /\ Apart(e.brka, e.brk, e.top - e.stack, e.stack)
  /\ Apart(e.brka, e.brk, e.mstart, e.arena - e.mstart) /\ Apart(e.top - e.stack, e.stack, e.mstart, e.arena - e.mstart)
  /\ e.brka + e.brk <= e.arena /\ e.top <= e.arena /\ e.mstart <= e.arena /\ e.arena >= e.max
  /\ e.mstart % 4096 = 0 /\ e.maddr = e.mstart
NamesOk(S, names) == \A i \in 1..Len(names): LET m == {s \in S: s.n = names[i].n} IN
  IF m = {} THEN names[i].a = <<0,0,0,0,0,0,0,0>> ELSE \E s \in m: s.a = names[i].a
AddrsOk(S, addrs) == \A i \in 1..Len(addrs): LET x == addrs[i]  a == Cap8(x.at)
                                                 c == {s \in S: Cap8(s.a) <= a /\ a < Cap8(s.a) + Cap8(s.z)} IN
  IF a = Big THEN TRUE
  ELSE IF c # {} THEN x.hit /\ \E s \in c: s.a = x.a /\ s.z = x.z /\ s.n = x.n
  ELSE x.hit => \E s \in S: s.a = x.a /\ s.z = x.z /\ s.n = x.n /\ Cap8(s.a) <= a
SymsSmall(S) == \A s \in S: Cap8(s.a) < Big /\ Cap8(s.z) < Big
\* a stub at the entry point: addi.d a0, zero, N; stop
EntryWord(f, L, a, k) == LET c == {i \in DOMAIN L: L[i].x /\ Covers(L[i], a + 4 * k) /\ a + 4 * k + 3 < L[i].vaddr + L[i].filesz} IN
  IF c = {} THEN <<>> ELSE LET i == CHOOSE i \in c: TRUE IN Slice(f, L[i].off + (a + 4 * k - L[i].vaddr), 4)
StubN(w) == IF w # <<>> /\ w[1] = 4 /\ w[2] % 4 = 0 /\ w[3] \div 64 = 3 /\ w[4] = 2 THEN (w[2] \div 4) + 64 * (w[3] % 64) ELSE 0 - 1
Stub(f, L, e) == LET a == Cap8(e.entry) IN
  IF a < Big /\ a % 4 = 0 /\ EntryWord(f, L, a, 1) = <<0, 0, 21, 0>> THEN StubN(EntryWord(f, L, a, 0)) ELSE 0 - 1

Problem(f, e) ==
  IF ~e.ok THEN (IF MustAccept(f, e) THEN "a well-formed file is refused"
                 ELSE IF e.exc # "other" THEN "" ELSE "refused with something that is not an exception")
  ELSE IF MustReject(f, e) THEN "an inconsistent file is accepted"
  ELSE LET L == Loads(f)  S == Symbols(f) IN
    IF e.entry # Slice(f, 24, 8) \/ e.pc # e.entry THEN "start address"
    ELSE IF Cap8(e.sp) # e.top THEN "stack pointer"
    ELSE IF ~ImageOk(f, L, e.mem) THEN "memory image"
    ELSE IF ~BoundsOk(L, e) THEN "read-only and writable boundaries"
    ELSE IF ~LayoutOk(L, e) THEN "layout of heap, stack and mapping area"
    ELSE IF SectionsOk(f) /\ ~NamesOk(S, e.names) THEN "symbol address"
    ELSE IF SectionsOk(f) /\ SymsSmall(S) /\ ~AddrsOk(S, e.addrs) THEN "symbol lookup"
    ELSE IF e.what = "well formed" /\ Stub(f, L, e) >= 0 /\ ~(e.run = "ok" /\ e.a0 = Stub(f, L, e) /\ e.icnt = 2) THEN "program does not run from its entry point"
    ELSE ""

(* ---- the initial stack --------------------------------------------------- *)
RECURSIVE SumLen(_, _, _)
SumLen(v, i, n) == IF i > Len(v) THEN n ELSE SumLen(v, i + 1, n + Len(v[i]) + 1)
StrAt(u, p) == \* string at guest address p, or <<-1>> when it is not inside the stack
  IF p < u.sp \/ p >= u.top \/ \A k \in p..(u.top - 1): u.bytes[k - u.sp + 1] # 0 THEN <<0 - 1>>
  ELSE LET z == CHOOSE k \in p..(u.top - 1): u.bytes[k - u.sp + 1] = 0 /\ \A j \in p..(k - 1): u.bytes[j - u.sp + 1] # 0
       IN SubSeq(u.bytes, p - u.sp + 1, z - u.sp)
Word8(u, p) == IF p < u.sp \/ p + 8 > u.top THEN <<255,255,255,255,255,255,255,255>> ELSE SubSeq(u.bytes, p - u.sp + 1, p - u.sp + 8)
Num(u, p) == Cap8(Word8(u, p))
ListOk(u, p, v) == /\ \A i \in 1..Len(v): StrAt(u, Num(u, p + 8 * (i - 1))) = v[i]
                   /\ Num(u, p + 8 * Len(v)) = 0
RECURSIVE AuxLen(_, _, _)
AuxLen(u, p, n) == IF p + 16 > u.top THEN 0 - 1 ELSE IF Num(u, p) = 0 THEN n ELSE AuxLen(u, p + 16, n + 1)
StackProblem(f, e) ==
  LET u == e.su
      need == SumLen(u.args, 1, 0) + SumLen(u.env, 1, 0) + 8 * (Len(u.args) + Len(u.env) + 3)
      argp == u.sp + 8   envp == argp + 8 * (Len(u.args) + 1)   aux == envp + 8 * (Len(u.env) + 1)
      n == AuxLen(u, aux, 0)
      val(k) == {Word8(u, aux + 16 * i + 8): i \in {i \in 0..(n - 1): Num(u, aux + 16 * i) = k}}
      num(k) == {Cap8(w): w \in val(k)}
      L == Loads(f)   phoff == U64(f, 32)   phlen == 56 * U16(f, 56)
  IN IF u.below \/ u.above THEN "memory outside the stack area written"
     ELSE IF u.out # "ok" THEN (IF u.args # <<>> /\ need + 16 * 32 + 96 <= e.stack THEN "arguments that fit are refused" ELSE "")
     ELSE IF u.args = <<>> THEN "an empty argument list is accepted"
     ELSE IF need + 7 * 16 > e.stack THEN "arguments that do not fit are accepted"
     ELSE IF u.sp % 16 # 0 THEN "stack pointer alignment"
     ELSE IF u.sp < u.top - e.stack \/ u.sp >= u.top THEN "stack pointer outside the stack area"
     ELSE IF Num(u, u.sp) # Len(u.args) THEN "argument count"
     ELSE IF ~ListOk(u, argp, u.args) THEN "arguments"
     ELSE IF ~ListOk(u, envp, u.env) THEN "environment"
     ELSE IF n < 0 THEN "auxiliary vector has no end"
     ELSE IF num(4) # {56} \/ num(5) # {U16(f, 56)} THEN "program header size and count"
     ELSE IF num(6) # {4096} THEN "page size"
     ELSE IF val(9) # {Slice(f, 24, 8)} THEN "entry point"
     ELSE IF Cardinality(num(25)) # 1 \/ \E a \in num(25): ~(a >= aux + 16 * (n + 1) /\ a + 16 <= u.top) THEN "random bytes"
     ELSE IF (\E i \in DOMAIN L: L[i].off <= phoff /\ phoff + phlen <= L[i].off + L[i].filesz) /\ u.phdrs # Slice(f, phoff, phlen) THEN "program header address"
     ELSE ""
=============================================================================
