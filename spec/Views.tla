-------------------------------- MODULE Views --------------------------------
(* What the host may see of a guest object whose fields the guest chose:    *)
(* the bytes of guest memory the fields name, or a refusal -- never         *)
(* anything else, and nothing but guest memory is touched.                  *)
EXTENDS Word
MemEnd == 65536
ReadableFrom == 4096
WritableFrom == 8192
ObjAt == 16384
HeapSize == 4096
\* guest memory holds a pattern, except for the object itself
Pattern(raw, a) == IF a >= ObjAt /\ a < ObjAt + Len(raw) THEN raw[a - ObjAt + 1] ELSE (a * 31 + (a \div 256)) % 256
Span(from, p, n) == IsSmall(p) /\ IsSmall(n) /\ ToInt(p) >= from /\ ToInt(p) <= MemEnd /\ ToInt(n) <= MemEnd /\ ToInt(p) + ToInt(n) <= MemEnd
Inside(p, n) == Span(ReadableFrom, p, n)
Least(a, b) == IF a < b THEN a ELSE b
Refusal == [ok |-> FALSE, len |-> 0, bytes |-> <<>>]
Fine(n, b) == [ok |-> TRUE, len |-> n, bytes |-> b]
Bytes(raw, p, n) == [i \in 1..n |-> Pattern(raw, p + i - 1)]
Text(raw, p, n) == Fine(n, Bytes(raw, p, Least(n, 300)))
LimitHeld(n, max) == ~ULt(max, n)
StringView(k, raw, p, n, max) ==
  IF k = "str" /\ ULt(n, OfInt(16)) THEN Fine(ToInt(n), SubSeq(raw, 17, 16 + ToInt(n)))
  ELSE IF IsZero(n) THEN Fine(0, <<>>)
  ELSE IF LimitHeld(n, max) /\ Inside(p, n) THEN Text(raw, ToInt(p), ToInt(n)) ELSE Refusal
\* a vector of 4-byte elements: size in elements from the field(s)
Elems(k, n) == IF k = "vi" THEN Shr(n, 2) ELSE n
SizeBytes(k, n) == IF k = "vi" THEN n ELSE IF ULt(n, OfInt(1073741824)) THEN Shl(n, 2) ELSE Ones
Default == OfInt(16777216)
\* there: the bytes of memory at p; a view that can be written through must be writable
VectorView(k, call, p, n, cap, max, idx, there) ==
  LET from == IF call \in {"at", "as_array"} THEN WritableFrom ELSE ReadableFrom
      e == Elems(k, n)  b == Shl(e, 2)  whole == Fine(ToInt(e), SubSeq(there, 1, Least(4 * ToInt(e), 160))) IN
  IF call = "at" THEN (IF ~ULt(idx, e) \/ ~ULt(e, OfInt(1073741824)) \/ ~Span(from, p, b) THEN Refusal
                       ELSE LET i == 4 * ToInt(idx) IN IF i + 4 <= Len(there) THEN Fine(1, SubSeq(there, i + 1, i + 4)) ELSE [ok |-> TRUE, len |-> 1, bytes |-> <<-1>>])
  ELSE IF call = "to_vector" /\ k = "vi" /\ ULt(cap, n) THEN Refusal
  ELSE IF call # "to_vector" /\ ~LimitHeld(SizeBytes(k, n), max) THEN Refusal
  ELSE IF IsZero(e) THEN Fine(0, <<>>)
  ELSE IF ULt(e, OfInt(1073741824)) /\ Span(from, p, b) THEN whole ELSE Refusal
=============================================================================
