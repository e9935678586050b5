------------------------------- MODULE Compact -----------------------------
(* The standalone implementations, as they go about it.                      *)
(*   Standalone/CompactFIPS202: Keccak() in C and Python, and the "tweetable" *)
(*   C version; Standalone/KangarooTwelve/Rust.                               *)
EXTENDS KT

(* ---- Keccak(): absorbs what there is, block by block; a full block is       *)
(* permuted at once, so that the padding begins at 0..rb-1                     *)
RECURSIVE CoAbsorb(_, _, _, _, _)
CoAbsorb(rb, s, x, off, b) ==
    IF off = Len(x) THEN [s |-> s, b |-> b]
    ELSE LET n == MinOf(Len(x) - off, rb)
             t == XorAt(s, 0, Cut(x, off, n))
         IN  IF n = rb THEN CoAbsorb(rb, Perm("K", 24, t), x, off + n, 0) ELSE CoAbsorb(rb, t, x, off + n, n)
CoPad(nr, rb, a, delim) ==
    LET s1 == XorAt(a.s, a.b, Bytes1(delim))
        s2 == IF delim >= 128 /\ a.b = rb - 1 THEN Perm("K", nr, s1) ELSE s1
    IN  Perm("K", nr, XorAt(s2, rb - 1, Bytes1(128)))
RECURSIVE CoSqueeze(_, _, _, _, _)
CoSqueeze(nr, rb, s, n, acc) ==
    IF n = 0 THEN acc
    ELSE LET k == MinOf(n, rb) IN CoSqueeze(nr, rb, IF n > k THEN Perm("K", nr, s) ELSE s, n - k, acc \o Cut(s, 0, k))
CoKeccak(rb, m, delim, n) == CoSqueeze(24, rb, CoPad(24, rb, CoAbsorb(rb, Zero(Width("K")), m, 0, 0), delim), n, <<>>)

(* ---- tweetable: whole blocks; the last one is made in a buffer of its own;   *)
(* the permutation comes before each block of output                          *)
RECURSIVE TwAbsorb(_, _, _, _)
TwAbsorb(rb, s, x, off) ==
    IF Len(x) - off >= rb THEN TwAbsorb(rb, Perm("K", 24, XorAt(s, 0, Cut(x, off, rb))), x, off + rb) ELSE [s |-> s, off |-> off]
RECURSIVE TwOut(_, _, _, _, _)
TwOut(rb, s, i, d, acc) ==
    IF i = d THEN acc
    ELSE LET t == IF i % rb = 0 THEN Perm("K", 24, s) ELSE s IN TwOut(rb, t, i + 1, d, acc \o Cut(t, i % rb, 1))
TwKeccak(rb, m, p, d) ==
    LET a == TwAbsorb(rb, Zero(Width("K")), m, 0)
        n == Len(m) - a.off
        t1 == Cut(m, a.off, n) \o Bytes1(p) \o Zero((rb - n) - 1)
        t == XorAt(t1, rb - 1, Bytes1(128))     \* or: the same for a suffix below 128
    IN  TwOut(rb, XorAt(a.s, 0, t), 0, d, <<>>)

(* ---- Rust: the first block is copied; a block is permuted when the next one  *)
(* comes, or at the end if it is full                                         *)
RECURSIVE RuAbsorb(_, _, _, _, _)
RuAbsorb(rb, s, x, off, b) ==
    IF off >= Len(x) THEN [s |-> s, b |-> b]
    ELSE LET n == MinOf(Len(x) - off, rb)
         IN  RuAbsorb(rb, XorAt(Perm("K", 12, s), 0, Cut(x, off, n)), x, off + n, n)
RuF(rb, x, delim, n) ==
    LET b0 == MinOf(Len(x), rb)
        a == RuAbsorb(rb, Put(Zero(Width("K")), 0, Cut(x, 0, b0)), x, b0, b0)
        e == IF a.b = rb THEN [s |-> Perm("K", 12, a.s), b |-> 0] ELSE a
    IN  CoSqueeze(12, rb, CoPad(12, rb, e, delim), n, <<>>)
RECURSIVE RuNodes(_, _, _, _)
RuNodes(rb, S, i, n) ==
    IF i = n THEN <<>>
    ELSE RuF(rb, Cut(S, i * Chunk, MinOf((i + 1) * Chunk, Len(S)) - (i * Chunk)), 11, Width("K") - rb) \o RuNodes(rb, S, i + 1, n)
RuKT(rb, m, c, l) ==
    LET S == m \o c \o LenEnc(Len(c))
        n == CeilDiv(Len(S), Chunk)
    IN  IF n = 1 THEN RuF(rb, S, 7, l)
        ELSE RuF(rb, Cut(S, 0, Chunk) \o Bytes1(3) \o Zero(Lane - 1) \o RuNodes(rb, S, 1, n) \o LenEnc(n - 1) \o FF, 6, l)
=============================================================================
