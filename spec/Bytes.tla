------------------------------- MODULE Bytes -------------------------------
(* Byte strings are sequences of integers 0..255; offsets are 0-based.      *)
(* The operators marked (J) have a Java module override with the same       *)
(* meaning (java/tlc2/overrides/XkcpOverrides.java); MCPrim compares both.  *)
EXTENDS Naturals, Sequences, Bitwise

CXorS(a, b) == [i \in 1..Len(a) |-> a[i] ^^ b[i]]                      \* (J)
CAndS(a, b) == [i \in 1..Len(a) |-> a[i] & b[i]]                       \* (J)
CXorAt(s, off, d) == [i \in 1..Len(s) |->                              \* (J)
    IF i > off /\ i <= off + Len(d) THEN s[i] ^^ d[i - off] ELSE s[i]]
PutAt(s, off, d) == [i \in 1..Len(s) |->                               \* (J)
    IF i > off /\ i <= off + Len(d) THEN d[i - off] ELSE s[i]]
Slice(s, off, n) == SubSeq(s, off + 1, off + n)                        \* (J)
Rep(b, n) == [i \in 1..n |-> b]                                        \* (J)
Zeros(n) == Rep(0, n)

Min(a, b) == IF a < b THEN a ELSE b
Max(a, b) == IF a > b THEN a ELSE b
Pow2(n) == 2 ^ n

(* Low n bits of a byte value *)
LowBits(b, n) == b % Pow2(n)

(* Generated test data: byte i of stream `seed` (streams 0 and 1 are constant). *)
GenByte(seed, i) ==
    IF seed = 0 THEN 0 ELSE IF seed = 1 THEN 255 ELSE
    LET m == (((seed % 100003) * 7919 + 12345) % 32749) + 1
        t == ((i % 65521) + 1) * m
    IN  ((t \div 257) + (t \div 65536) * 3 + (i \div 251) + (t % 251) * ((i % 13) + 1)) % 256
Gen(seed, off, n) == [k \in 1..n |-> GenByte(seed, off + k - 1)]       \* (J)

(* A data argument of a call is a descriptor, or an explicit byte string.   *)
Dsc(seed, off, n) == [s |-> seed, o |-> off, n |-> n]
DataOf(d) == Gen(d.s, d.o, d.n)

(* little-endian encoding of a natural number below 2^31 in n bytes *)
RECURSIVE LE(_, _)
LE(v, n) == IF n = 0 THEN <<>> ELSE <<v % 256>> \o LE(v \div 256, n - 1)
=============================================================================
