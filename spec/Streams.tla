------------------------------- MODULE Streams -----------------------------
(* Byte strings too long to be written down.  A stream is a sequence of       *)
(* segments: literal bytes, a long run through a periodic string, or such a    *)
(* run encrypted with the output of a deck function.  Every operator here is   *)
(* defined on the bytes of the stream; (J): the Java override walks through    *)
(* the stream instead.  MCStreams compares the two on short streams.           *)
EXTENDS ConPrim, Rolls

Lit(b) == [t |-> "lit", b |-> b]
(* q periods of T bytes and r more, from position o of the period of data s    *)
Cyc(T, s, o, q, r) == [t |-> "cyc", T |-> T, s |-> s, o |-> o, q |-> q, r |-> r]
(* the run c, XORed with what follows the first k bytes of the output of a      *)
(* deck function with output state y and mask m                                 *)
Enc(c, kd, y, m, k) == [t |-> "enc", c |-> c, kd |-> kd, y |-> y, m |-> m, k |-> k]

CycLen(c) == (c.q * c.T) + c.r
RECURSIVE FarBytes(_, _, _, _)
FarBytes(kd, y, m, n) ==
    IF n <= 0 THEN <<>> ELSE CXorS(CPerm(kd, 6, y), m) \o FarBytes(kd, CRollE(kd, y), m, n - CWidth(kd))
SegBytes(g) ==
    CASE g.t = "lit" -> g.b
      [] g.t = "cyc" -> [i \in 1..CycLen(g) |-> GenByte(g.s, (g.o + i - 1) % g.T)]
      [] g.t = "enc" -> LET n == CycLen(g.c) IN
           CXorS([i \in 1..n |-> GenByte(g.c.s, (g.c.o + i - 1) % g.c.T)], Slice(FarBytes(g.kd, g.y, g.m, g.k + n), g.k, n))
RECURSIVE StBytes(_)
StBytes(gs) == IF gs = <<>> THEN <<>> ELSE SegBytes(gs[1]) \o StBytes(Tail(gs))

(* ---- sponges: state st, position ix in the block of rb bytes; pd: what is added to the state before every permutation ---- *)
RECURSIVE AbsFrom(_, _, _, _, _, _)
AbsFrom(nr, st, ix, rb, pd, x) ==
    IF x = <<>> THEN <<st, ix>>
    ELSE LET k == Min(Len(x), rb - ix)
             s == CXorAt(st, ix, Slice(x, 0, k))
         IN  IF ix + k = rb THEN AbsFrom(nr, KeccakP(nr, CXorAt(s, 0, pd)), 0, rb, pd, Slice(x, k, Len(x) - k)) ELSE <<s, ix + k>>
StAbsorb(nr, st, ix, rb, pd, gs) == AbsFrom(nr, st, ix, rb, pd, StBytes(gs))                            \* (J)
(* after giving out as many bytes as the run c has (a block is refreshed when the next byte is needed) *)
RECURSIVE SkipFrom(_, _, _, _, _, _)
SkipFrom(nr, st, ix, rb, pd, n) ==
    IF n = 0 THEN <<st, ix>>
    ELSE IF ix = rb THEN SkipFrom(nr, KeccakP(nr, CXorAt(st, 0, pd)), 0, rb, pd, n)
    ELSE LET k == Min(n, rb - ix) IN SkipFrom(nr, st, ix + k, rb, pd, n - k)
StSkip(nr, st, ix, rb, pd, c) == SkipFrom(nr, st, ix, rb, pd, CycLen(c))                                 \* (J)
(* absorbs the chaining values (cv bytes, for padding byte d) of the chunks of the stream, but for the first `skip` *)
RECURSIVE OutOf(_, _, _, _)
OutOf(nr, st, rb, n) == IF n <= rb THEN Slice(st, 0, n) ELSE Slice(st, 0, rb) \o OutOf(nr, KeccakP(nr, st), rb, n - rb)
Leaf(nr, rb, d, x, cv) ==
    LET a == AbsFrom(nr, Zeros(200), 0, rb, <<>>, x)
    IN  OutOf(nr, KeccakP(nr, CXorAt(CXorAt(a[1], a[2], <<d>>), rb - 1, <<128>>)), rb, cv)
RECURSIVE Leaves(_, _, _, _, _, _)
Leaves(nr, rb, d, x, chunk, cv) ==
    IF x = <<>> THEN <<>>
    ELSE LET k == Min(chunk, Len(x)) IN Leaf(nr, rb, d, Slice(x, 0, k), cv) \o Leaves(nr, rb, d, Slice(x, k, Len(x) - k), chunk, cv)
StTree(nr, st, ix, rb, d, chunk, cv, gs, skip) ==                                                        \* (J)
    LET x == StBytes(gs) IN AbsFrom(nr, st, ix, rb, <<>>, Leaves(nr, rb, d, Slice(x, skip * chunk, Len(x) - (skip * chunk)), chunk, cv))

(* ---- Farfalle: the stream is a whole number of blocks ---- *)
RECURSIVE SumFrom(_, _, _, _)
SumFrom(kd, x, a, m) ==
    IF x = <<>> THEN <<a, m>>
    ELSE LET w == CWidth(kd) IN SumFrom(kd, Slice(x, w, Len(x) - w), CXorS(a, CPerm(kd, 6, CXorS(Slice(x, 0, w), m))), CRollC(kd, m))
FarSum(kd, gs, a, m) == SumFrom(kd, StBytes(gs), a, m)                                                   \* (J)
(* the last n of as many bytes of output as the run c has, after k bytes *)
FarTail(kd, y, m, k, c, n) == Slice(FarBytes(kd, y, m, k + CycLen(c)), (k + CycLen(c)) - n, n)               \* (J)

(* ---- Cyclist: s state, up: phase ---- *)
CDown(s, x, cd, hash) == CXorAt(CXorAt(CXorAt(s, 0, x), Len(x), <<1>>), 47, <<IF hash THEN cd % 2 ELSE cd>>)
CUp(s, cu, hash) == XoodooP(12, IF hash THEN s ELSE CXorAt(s, 47, <<cu>>))
RECURSIVE CAbs(_, _, _, _, _, _)
CAbs(s, up, hash, r, cd, x) ==
    LET k == Min(r, Len(x))
        t == CDown(IF up THEN s ELSE CUp(s, 0, hash), Slice(x, 0, k), cd, hash)
    IN  IF k = Len(x) THEN t ELSE CAbs(t, FALSE, hash, r, 0, Slice(x, k, Len(x) - k))
CyAbsorb(s, up, hash, r, cd, gs) == CAbs(s, up, hash, r, cd, StBytes(gs))                                \* (J)
RECURSIVE CSq(_, _, _, _, _)
CSq(s, hash, r, n, acc) ==
    IF n = 0 THEN <<s, acc>>
    ELSE LET t == CUp(CDown(s, <<>>, 0, hash), 0, hash)  k == Min(n, r) IN CSq(t, hash, r, n - k, acc \o Slice(t, 0, k))
(* state after the squeezing of as many bytes as c has, the last w of them *)
CySqueeze(s, hash, r, cu, c, w) ==                                                                       \* (J)
    LET t == CUp(s, cu, hash)  k == Min(CycLen(c), r)  q == CSq(t, hash, r, CycLen(c) - k, Slice(t, 0, k))
    IN  <<q[1], Slice(q[2], Len(q[2]) - w, w)>>
RECURSIVE CEn(_, _, _, _, _, _)
CEn(s, r, dec, cu, x, acc) ==
    LET t == CUp(s, cu, FALSE)  k == Min(Len(x), r)
        y == CXorS(Slice(x, 0, k), Slice(t, 0, k))
        u == CDown(t, IF dec THEN y ELSE Slice(x, 0, k), 0, FALSE)
    IN  IF k = Len(x) THEN <<u, acc \o y>> ELSE CEn(u, r, dec, 0, Slice(x, k, Len(x) - k), acc \o y)
CyCrypt(s, r, dec, c, w) == LET q == CEn(s, r, dec, 128, SegBytes(c), <<>>) IN <<q[1], Slice(q[2], Len(q[2]) - w, w)>>  \* (J)

(* ---- natural numbers beyond 2^31: sequences of digits to base 256, most significant first ---- *)
RECURSIVE Big(_)
Big(v) == IF v < 256 THEN <<v>> ELSE Big(v \div 256) \o <<v % 256>>
RECURSIVE BAdd(_, _)
BTop(a) == IF Len(a) > 1 /\ a[1] = 0 THEN Tail(a) ELSE a
(* a + v, for 0 <= v < 2^30 *)
RECURSIVE BAddS(_, _)
BAddS(a, v) == IF v = 0 THEN a ELSE IF a = <<>> THEN Big(v)
               ELSE LET k == a[Len(a)] + v IN BAddS(SubSeq(a, 1, Len(a) - 1), k \div 256) \o <<k % 256>>
(* a * v, for v < 2^22 *)
RECURSIVE BMulS(_, _)
BMulS(a, v) == IF Len(a) = 1 THEN Big(a[1] * v)
               ELSE LET k == a[Len(a)] * v  h == BAddS(BMulS(SubSeq(a, 1, Len(a) - 1), v), k \div 256) IN BTop(h \o <<k % 256>>)
BAdd(a, b) == IF Len(b) = 1 THEN BAddS(a, b[1])
              ELSE LET h == BAdd(IF Len(a) = 1 THEN <<0>> ELSE SubSeq(a, 1, Len(a) - 1), SubSeq(b, 1, Len(b) - 1))
                   IN  BTop(BAddS(h \o <<0>>, a[Len(a)] + b[Len(b)]))
RECURSIVE BModS(_, _)
BModS(a, v) == IF a = <<>> THEN 0 ELSE ((BModS(SubSeq(a, 1, Len(a) - 1), v) * 256) + a[Len(a)]) % v
(* quotient by v < 2^22, as a number below 2^31 *)
RECURSIVE BDivS(_, _)
BDivS(a, v) == IF a = <<>> THEN 0 ELSE (BDivS(SubSeq(a, 1, Len(a) - 1), v) * 256) + (((BModS(SubSeq(a, 1, Len(a) - 1), v) * 256) + a[Len(a)]) \div v)
CycBig(c) == BAddS(BMulS(Big(c.T), c.q), c.r)
SegBig(g) == CASE g.t = "lit" -> Big(Len(g.b)) [] g.t = "cyc" -> CycBig(g) [] g.t = "enc" -> CycBig(g.c)
RECURSIVE StBig(_)
StBig(gs) == IF gs = <<>> THEN <<0>> ELSE BAdd(SegBig(gs[1]), StBig(Tail(gs)))
=============================================================================
