-------------------------------- MODULE Linux -------------------------------
(* The emulated Linux system calls as a sandbox: what each may answer, which *)
(* guest bytes it may write, what it may print and where control continues.  *)
(* State: memory (Memory.tla), signal actions, alternate stacks per thread.  *)
EXTENDS Memory, FiniteSets

\* the code the driver runs: a system call followed by stop instructions
CodeBase == 1048576
CodeWords == 64
InCode(w) == IsSmall(w) /\ ToInt(w) >= CodeBase /\ ToInt(w) < CodeBase + 4 * CodeWords

Next1 == <<>>
Stop1 == <<1>>
SameSp == <<>>
\* one allowed behaviour of a call
\*   out   "ok" or the kind of exception the host sees
\*   ret   the result register (a word)
\*   mem   guest memory afterwards, up to the bytes in free (1-based indices), which are arbitrary
\*   print the bytes that reach the output
\*   to    where control continues: Next1 (behind the call), Stop1 (the machine stops) or an address
\*   sp    SameSp or the new stack pointer
Same(s) == [out |-> "ok", ret |-> Zero, mem |-> s.mem, free |-> {}, print |-> <<>>, to |-> Next1, sp |-> SameSp, sig |-> s.sig, alt |-> s.alt]
Ret(s, r) == {[Same(s) EXCEPT !.ret = r]}
RetI(s, i) == Ret(s, OfInt(i))
Exc(s, kinds) == {[Same(s) EXCEPT !.out = kd] : kd \in kinds}
Prot(s) == Exc(s, {"prot"})
\* combine a range outcome with what happens when it is accepted; a refused empty range is allowed to fault too
When(s, oc, good) == IF oc = Yes THEN good ELSE IF oc = No THEN Prot(s) ELSE good \cup Prot(s)

Low(w) == <<w[1], w[2], w[3], w[4]>>
Int32(w) == Sext32(w)          \* the value a C int parameter gets
IsStdio(w) == Low(w) \in {<<0,0,0,0>>, <<1,0,0,0>>, <<2,0,0,0>>}
IsOut(w) == Low(w) \in {<<1,0,0,0>>, <<2,0,0,0>>}
EBADF == -9
ENOENT == -2
EINVAL == -22
ENOSYS == -38
ENOTTY == -25
EAGAIN == -11

W64(mem, at) == Peek(mem, at, 8)
Write(s, a) == LET o == RangeOutcome(s.ar, s.ar.ro, a[2], a[3]) IN
  IF ~IsOut(a[1]) THEN RetI(s, EBADF)
  ELSE When(s, o, {[Same(s) EXCEPT !.ret = a[3], !.print = IF o = Yes THEN Peek(s.mem, ToInt(a[2]), ToInt(a[3])) ELSE <<>>]})

\* the buffers of a vector, in order, until one cannot be read
RECURSIVE Vec(_, _, _, _, _)
Vec(s, at, n, printed, total) ==
  IF n = 0 THEN [ok |-> TRUE, print |-> printed, total |-> total]
  ELSE IF ~(CanRead(s.ar, at) /\ CanRead(s.ar, AddInt(at, 8))) THEN [ok |-> FALSE, print |-> printed, total |-> total]
  ELSE LET base == W64(s.mem, ToInt(at))  len == W64(s.mem, ToInt(at) + 8)
           o == RangeOutcome(s.ar, s.ar.ro, base, len)
       IN IF len = Zero THEN Vec(s, AddInt(at, 16), n - 1, printed, total)
          ELSE IF o = No THEN [ok |-> FALSE, print |-> printed, total |-> total]
          ELSE Vec(s, AddInt(at, 16), n - 1, printed \o Peek(s.mem, ToInt(base), ToInt(len)), total + ToInt(len))
Writev(s, a) ==
  IF ~(IsSmall(a[3]) /\ ToInt(a[3]) <= 1024) THEN Exc(s, {"ill"}) \cup RetI(s, EINVAL) \cup (IF IsOut(a[1]) THEN {} ELSE RetI(s, EBADF))
  ELSE IF ~IsOut(a[1]) THEN RetI(s, EBADF)
  ELSE LET v == Vec(s, a[2], ToInt(a[3]), <<>>, 0)
       IN IF v.ok THEN {[Same(s) EXCEPT !.ret = OfInt(v.total), !.print = v.print]}
          ELSE {[Same(s) EXCEPT !.out = "prot", !.print = p] : p \in {<<>>, v.print}}
Read(s, a) == IF Low(a[1]) = <<0,0,0,0>> THEN RetI(s, 0) ELSE RetI(s, EBADF)
Close(s, a) == IF IsStdio(a[1]) THEN RetI(s, 0) ELSE RetI(s, EBADF)
Fstat(s, a) == IF ~IsStdio(a[1]) \/ a[2] = Zero THEN RetI(s, EBADF)
  ELSE LET o == RangeOutcome(s.ar, s.ar.rw, a[2], OfInt(128)) IN
       When(s, o, IF o = Yes THEN {[Same(s) EXCEPT !.mem = Fill(s.mem, ToInt(a[2]), 128, 0)]} ELSE {})
Ioctl(s, a) == IF IsStdio(a[1]) THEN RetI(s, ENOTTY) ELSE RetI(s, EBADF)

ProcSelfExe == <<47,112,114,111,99,47,115,101,108,102,47,101,120,101>>
FakePath == <<47,116,109,112,47,112,114,111,103,114,97,109>>
Readlinkat(s, a) ==
  IF ~CanRead(s.ar, a[2]) THEN Prot(s)
  ELSE LET room == StrRoom(s.ar, a[2], OfInt(256))
           len == StrN(s.mem, ToInt(a[2]), room)
           cut == len = room /\ room < 256
           path == Peek(s.mem, ToInt(a[2]), len)
           n == IF IsSmall(a[4]) THEN Min(ToInt(a[4]), Len(FakePath)) ELSE Len(FakePath)
           o == RangeOutcome(s.ar, s.ar.rw, a[3], OfInt(n))
       IN (IF cut THEN Prot(s) ELSE {}) \cup
          (IF path # ProcSelfExe THEN RetI(s, ENOENT)
           ELSE When(s, o, {[Same(s) EXCEPT !.ret = OfInt(n), !.mem = IF o = Yes THEN Poke(s.mem, ToInt(a[3]), SubSeq(FakePath, 1, n)) ELSE s.mem]}))

\* struct pollfd: int fd; short events; short revents
Ppoll(s, a) ==
  IF ~(IsSmall(a[2]) /\ ToInt(a[2]) <= 1024) THEN Exc(s, {"ill"}) \cup RetI(s, EINVAL)
  ELSE LET n == ToInt(a[2])
           o == RangeOutcome(s.ar, s.ar.rw, a[1], OfInt(8 * n))
           at == ToInt(a[1])
           std(i) == LET p == at + 8 * i IN Peek(s.mem, p, 4) \in {<<0,0,0,0>>, <<1,0,0,0>>, <<2,0,0,0>>}
           rev(i) == IF std(i) THEN Peek(s.mem, at + 8 * i + 4, 2) ELSE <<0, 0>>
           new == [k \in 1..Len(s.mem) |-> IF k > at /\ k <= at + 8 * n /\ (k - at - 1) % 8 >= 6
                                           THEN rev((k - at - 1) \div 8)[((k - at - 1) % 8) - 5] ELSE s.mem[k]]
           ready == Cardinality({i \in 0..(n - 1) : rev(i) # <<0, 0>>})
       IN When(s, o, IF o = Yes THEN {[Same(s) EXCEPT !.ret = OfInt(ready), !.mem = new]} ELSE RetI(s, 0))

\* a call that stores n bytes at a, the bytes being free or given
Stores(s, a, n, r, data) ==
  LET o == RangeOutcome(s.ar, s.ar.rw, a, n) IN
  When(s, o, {[Same(s) EXCEPT !.ret = r, !.free = IF o = Yes /\ data = <<>> THEN (ToInt(a) + 1)..(ToInt(a) + ToInt(n)) ELSE {},
                              !.mem = IF o = Yes /\ data # <<>> THEN Poke(s.mem, ToInt(a), data) ELSE s.mem]})
ClockGettime(s, a) ==
  LET known == Low(a[1]) \in {<<i,0,0,0>> : i \in 0..1}
      never == Low(a[1]) \in {<<i,0,0,0>> : i \in 12..15} \cup {<<100,0,0,0>>, <<255,255,255,127>>}
  IN IF a[2] = Zero THEN RetI(s, 0) \cup (IF known THEN {} ELSE RetI(s, EINVAL))
     ELSE (IF never THEN {} ELSE Stores(s, a[2], OfInt(16), Zero, <<>>)) \cup (IF known THEN {} ELSE RetI(s, EINVAL))
Gettimeofday(s, a) == IF a[1] = Zero THEN RetI(s, 0) ELSE Stores(s, a[1], OfInt(16), Zero, <<>>)
Nanosleep(s, a) == IF a[1] = Zero THEN RetI(s, 0)
  ELSE LET o == RangeOutcome(s.ar, s.ar.ro, a[1], OfInt(16)) IN
       When(s, o, IF a[2] = Zero THEN RetI(s, 0) ELSE Stores(s, a[2], OfInt(16), Zero, [i \in 1..16 |-> 0]))
SchedGetaffinity(s, a) == IF ULt(a[2], OfInt(8)) \/ a[3] = Zero THEN RetI(s, EINVAL) ELSE Stores(s, a[3], OfInt(8), OfInt(8), OfInt(1))
Prlimit(s, a) == IF a[4] = Zero THEN RetI(s, 0)
  ELSE LET lim == IF Low(a[2]) = <<3,0,0,0>> THEN <<0,0,128,0,0,0,0,0>> \o Ones
                  ELSE IF Low(a[2]) = <<7,0,0,0>> THEN OfInt(1024) \o OfInt(4096) ELSE Ones \o Ones
       IN Stores(s, a[4], OfInt(16), Zero, lim)
Getrandom(s, a) == Stores(s, a[1], a[2], a[2], <<>>)
Futex(s, a) == LET op == a[2][1] % 128 IN \* the private flag does not matter
  IF <<a[2][2], a[2][3], a[2][4]>> # <<0,0,0>> THEN RetI(s, ENOSYS)
  ELSE IF op = 0 THEN RetI(s, EAGAIN) ELSE IF op = 1 THEN RetI(s, 0) ELSE RetI(s, ENOSYS)

(* ---- signals ---- *)
NoAction == [h |-> Zero, fl |-> Zero, mask |-> Zero]
ActionBytes(x) == x.h \o x.fl \o x.mask
SigOk(w) == \E i \in 1..64 : Low(w) = <<i,0,0,0>>
OnStack(fl) == (fl[4] \div 8) % 2 = 1    \* 0x08000000
Sigaction(s, a) ==
  IF ~SigOk(a[1]) THEN Exc(s, {"invalid"}) \cup RetI(s, EINVAL)
  ELSE LET sig == a[1][1]
           rd == IF a[2] = Zero THEN Yes ELSE RangeOutcome(s.ar, s.ar.ro, a[2], OfInt(24))
           wr == IF a[3] = Zero THEN Yes ELSE RangeOutcome(s.ar, s.ar.rw, a[3], OfInt(24))
           new == IF a[2] = Zero THEN s.sig[sig]
                  ELSE LET p == ToInt(a[2]) IN [h |-> W64(s.mem, p), fl |-> W64(s.mem, p + 8), mask |-> W64(s.mem, p + 16)]
       IN IF rd = No \/ wr = No THEN Prot(s)
          ELSE {[Same(s) EXCEPT !.mem = IF a[3] = Zero THEN s.mem ELSE Poke(s.mem, ToInt(a[3]), ActionBytes(s.sig[sig])),
                                !.sig = [s.sig EXCEPT ![sig] = new]]}
\* stack_t: pointer, int flags, padding, size
AltZero == [i \in 1..24 |-> 0]
AltOf(s) == IF s.tid \in DOMAIN s.alt THEN s.alt[s.tid] ELSE AltZero
SetAlt(s, v) == [t \in DOMAIN s.alt \cup {s.tid} |-> IF t = s.tid THEN v ELSE s.alt[t]]
Sigaltstack(s, a) ==
  LET rd == IF a[1] = Zero THEN Yes ELSE RangeOutcome(s.ar, s.ar.ro, a[1], OfInt(24))
      wr == IF a[2] = Zero THEN Yes ELSE RangeOutcome(s.ar, s.ar.rw, a[2], OfInt(24))
      new == IF a[1] = Zero THEN AltOf(s) ELSE Peek(s.mem, ToInt(a[1]), 24)
  IN IF rd = No \/ wr = No THEN Prot(s)
     ELSE {[Same(s) EXCEPT !.mem = IF a[2] = Zero THEN s.mem ELSE Poke(s.mem, ToInt(a[2]), AltOf(s)),
                           !.alt = IF a[1] = Zero THEN s.alt ELSE SetAlt(s, new)]}
Unhandled(x) == x.h \in {Zero, OfInt(1)}     \* default or ignored
Raise(s, sigw) ==
  LET x == s.sig[sigw[1]]
      alt == AltOf(s)
      sp == Add(SubSeq(alt, 1, 8), SubSeq(alt, 17, 24))
      usable == SubSeq(alt, 17, 24) # Zero /\ (alt[9] \div 2) % 2 = 0
      to == [x.h EXCEPT ![1] = @ - (@ % 4)]
  IN IF InCode(to) THEN {[Same(s) EXCEPT !.ret = Int32(sigw), !.to = to, !.sp = IF OnStack(x.fl) /\ usable THEN sp ELSE SameSp]}
     ELSE Exc(s, {"exec", "prot", "misaligned"})
Kill(s, sigw) ==
  IF Low(sigw) = <<0,0,0,0>> THEN RetI(s, 0)
  ELSE IF ~SigOk(sigw) THEN Exc(s, {"invalid"}) \cup RetI(s, EINVAL)
  ELSE IF Unhandled(s.sig[sigw[1]]) THEN RetI(s, 0)
  ELSE Raise(s, sigw)
Tgkill(s, a) == IF Low(a[3]) = <<6,0,0,0>> /\ Unhandled(s.sig[6])
                THEN Exc(s, {"abort"}) \cup (IF s.sig[6].h = OfInt(1) THEN RetI(s, 0) ELSE {})
                ELSE Kill(s, a[3])

\* every behaviour call number n with arguments a may show in state s
Call(s, n, a) ==
  CASE n \in {93, 94} -> {[Same(s) EXCEPT !.ret = a[1], !.to = Stop1]}
    [] n = 64 -> Write(s, a)          [] n = 66 -> Writev(s, a)      [] n = 63 -> Read(s, a)
    [] n = 56 -> RetI(s, ENOENT)      [] n = 57 -> Close(s, a)       [] n = 80 -> Fstat(s, a)
    [] n = 291 -> RetI(s, ENOSYS)     [] n = 29 -> Ioctl(s, a)       [] n = 78 -> Readlinkat(s, a)
    [] n = 73 -> Ppoll(s, a)
    [] n \in {25, 214, 226, 233, 99, 167, 135} -> RetI(s, 0)         \* accepted and ignored
    [] n = 113 -> ClockGettime(s, a)  [] n = 169 -> Gettimeofday(s, a) [] n = 101 -> Nanosleep(s, a)
    [] n \in {178, 96} -> RetI(s, s.tid)
    [] n = 172 -> RetI(s, 0)          [] n \in {174, 175, 176, 177} -> RetI(s, 1000)
    [] n = 123 -> SchedGetaffinity(s, a) [] n = 261 -> Prlimit(s, a) [] n = 278 -> Getrandom(s, a)
    [] n = 98 -> Futex(s, a)
    [] n = 132 -> Sigaltstack(s, a)   [] n = 134 -> Sigaction(s, a)
    [] n = 130 -> Kill(s, a[2])       [] n = 131 -> Tgkill(s, a)
    [] OTHER -> Exc(s, {"nosys"})
=============================================================================
