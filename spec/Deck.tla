-------------------------------- MODULE Deck --------------------------------
(* The deck functions Kravatte (kind "K": Keccak-p[1600], 6 rounds) and       *)
(* Xoofff (kind "X": Xoodoo, 6 rounds).  lib/high/Kravatte, lib/high/Xoofff.   *)
(* A bit string is a record [d: bytes, n: number of bits], d as long as the    *)
(* bits need, the unused bits of the last byte zero.                           *)
EXTENDS Prim
CONSTANTS RollC(_, _), RollE(_, _)    \* rolling functions for masks and outputs, per kind

Res(i, rc) == [i |-> i, e |-> [rc |-> rc]]
ResO(i, rc, o) == [i |-> i, e |-> [rc |-> rc, out |-> o]]
BStr(d, n) == [d |-> BitsMask(Cut(d, 0, CeilDiv(n, 8)), n), n |-> n]
P6(kd, s) == Perm(kd, 6, s)

(* 1 0* after the bits of the string, up to a whole number of blocks *)
RECURSIVE BitPad(_, _)
BitPad(s, w) ==
    LET d == IF s.n % 8 = 0 THEN s.d \o Bytes1(1)
             ELSE Cut(s.d, 0, s.n \div 8) \o XorS(Cut(s.d, s.n \div 8, 1), Bytes1(2 ^ (s.n % 8)))
    IN  d \o Zero((w - (Len(d) % w)) % w)
(* the bits of b put after those of a *)
RECURSIVE AppendBits(_, _)
BitAt(v, j) == (v \div 2^j) % 2
(* s followed by the m low bits of the constant v (m <= 8) *)
AppendBits(s, vm) ==
    LET v == vm[1]  m == vm[2]  r == s.n % 8  k == s.n \div 8 IN
    IF m = 0 THEN s
    ELSE IF r = 0 THEN [d |-> s.d \o Bytes1(v % 2^m), n |-> s.n + m]
    ELSE LET t == MinOf(m, 8 - r)
             J == [d |-> Cut(s.d, 0, k) \o XorS(Cut(s.d, k, 1), Bytes1((v % 2^t) * 2^r)), n |-> s.n + t]
         IN  AppendBits(J, <<v \div 2^t, m - t>>)

(* ------------------------------------------------------------------------ *)
(* A. Farfalle: the function of a key and a sequence of strings               *)
(* ------------------------------------------------------------------------ *)
MaskOf(kd, K) == P6(kd, BitPad(K, Width(kd)))
(* sum of the permuted, masked blocks of p from offset off; gives x and the next mask *)
RECURSIVE FSum(_, _, _, _, _)
FSum(kd, p, off, x, m) ==
    IF off = Len(p) THEN [x |-> x, m |-> m]
    ELSE LET w == Width(kd) IN FSum(kd, p, off + w, XorS(x, P6(kd, XorS(Cut(p, off, w), m))), RollC(kd, m))
RECURSIVE FAll(_, _, _, _)
FAll(kd, ss, x, m) ==
    IF ss = <<>> THEN [x |-> x, m |-> m]
    ELSE LET r == FSum(kd, BitPad(ss[1], Width(kd)), 0, x, m)
         IN  FAll(kd, SubSeq(ss, 2, Len(ss)), r.x, RollC(kd, r.m))       \* one mask is skipped between strings
RECURSIVE FOut(_, _, _, _)
FOut(kd, y, m, n) ==
    IF n <= 0 THEN <<>> ELSE XorS(P6(kd, y), m) \o FOut(kd, RollE(kd, y), m, n - Width(kd))
(* n bytes of output *)
DeckFn(kd, K, ss, short, n) ==
    LET r == FAll(kd, ss, Zero(Width(kd)), MaskOf(kd, K))
    IN  Cut(FOut(kd, IF short THEN r.x ELSE P6(kd, r.x), r.m, n), 0, n)
(* n bits of output, from byte off *)
DeckBits(kd, K, ss, short, off, n) == BitsMask(Cut(DeckFn(kd, K, ss, short, off + CeilDiv(n, 8)), off, CeilDiv(n, 8)), n)

(* ------------------------------------------------------------------------ *)
(* B. The object                                                              *)
(* k: mask, kr: current mask, x: accumulator, y: output state, q: input bytes *)
(* waiting for a full block, w: output bytes not yet given out,               *)
(* ph: "comp", "exp", "done", "dirty" (a WBC used the object: a new session    *)
(* has to be opened); K: key, ss: complete strings, c: bytes of the current    *)
(* string, sh: short variant, o: output so far.                                *)
(* ------------------------------------------------------------------------ *)
DkNew(kd, K) == LET k == MaskOf(kd, K) IN
    [ty |-> "deck", kd |-> kd, k |-> k, kr |-> k, x |-> Zero(Width(kd)), y |-> <<>>, q |-> <<>>, w |-> <<>>, ph |-> "comp",
     K |-> K, ss |-> <<>>, c |-> <<>>, sh |-> FALSE, o |-> <<>>]
DkCallMask(I, kd, d, n) == IF n >= 8 * Width(kd) THEN Res(I, 1) ELSE Res(DkNew(kd, BStr(d, n)), 0)

RECURSIVE DkBlocks(_, _, _)
DkBlocks(I, x, off) ==      \* full blocks of x; the rest goes to the queue
    LET w == Width(I.kd) IN
    IF Len(x) - off < w THEN [I EXCEPT !.q = Cut(x, off, Len(x) - off)]
    ELSE DkBlocks([I EXCEPT !.x = XorS(I.x, P6(I.kd, XorS(Cut(x, off, w), I.kr))), !.kr = RollC(I.kd, I.kr)], x, off + w)
DkStart(I, ini) ==
    LET J == IF ini THEN [I EXCEPT !.kr = I.k, !.x = Zero(Width(I.kd)), !.q = <<>>, !.c = <<>>, !.ss = <<>>] ELSE I
    IN  IF J.ph = "comp" THEN J ELSE [J EXCEPT !.ph = "comp", !.q = <<>>, !.w = <<>>, !.o = <<>>]
DkCompress(I, s, ini, last) ==
    LET J == DkStart(I, ini)
        whole == DkBlocks(J, J.q \o Cut(s.d, 0, s.n \div 8), 0)
        rest == BitPad([d |-> whole.q \o Cut(s.d, s.n \div 8, Len(s.d) - (s.n \div 8)), n |-> 8 * Len(whole.q) + (s.n % 8)], Width(I.kd))
        B == DkBlocks(whole, rest, 0)
    IN  IF last THEN [B EXCEPT !.kr = RollC(I.kd, B.kr), !.c = <<>>,
                               !.ss = Append(J.ss, [d |-> J.c \o s.d, n |-> 8 * Len(J.c) + s.n])]
        ELSE [whole EXCEPT !.c = J.c \o s.d]
DkCallComp(I, d, n, ini, last) == IF ~last /\ n % 8 # 0 THEN Res(I, 1) ELSE Res(DkCompress(I, BStr(d, n), ini, last), 0)

RECURSIVE DkOut(_, _, _)
DkOut(I, n, acc) ==         \* n bytes of output
    IF n = 0 THEN [i |-> I, o |-> acc]
    ELSE IF I.w = <<>> THEN DkOut([I EXCEPT !.w = XorS(P6(I.kd, I.y), I.kr), !.y = RollE(I.kd, I.y)], n, acc)
    ELSE LET t == MinOf(n, Len(I.w)) IN DkOut([I EXCEPT !.w = Cut(I.w, t, Len(I.w) - t)], n - t, acc \o Cut(I.w, 0, t))
DkExpandOK(I) == I.ph = "exp" \/ (I.ph = "comp" /\ I.q = <<>>)
DkExpand(I, n, short, last) ==
    LET J == IF I.ph = "exp" THEN I ELSE [I EXCEPT !.ph = "exp", !.y = IF short THEN I.x ELSE P6(I.kd, I.x), !.w = <<>>, !.sh = short, !.o = <<>>]
        r == DkOut(J, CeilDiv(n, 8), <<>>)
        o == BitsMask(r.o, n)
    IN  [i |-> [r.i EXCEPT !.ph = IF last THEN "done" ELSE "exp", !.o = J.o \o o], o |-> o]
DkCallExp(I, n, short, last) ==
    IF (~last /\ n % 8 # 0) \/ ~DkExpandOK(I) THEN ResO(I, 1, <<>>)
    ELSE LET r == DkExpand(I, n, short, last) IN ResO(r.i, 0, r.o)
DkBoth(I, s, n, ini, short) == DkExpand(DkCompress(I, s, ini, TRUE), n, short, TRUE)
DkCallOne(I, d, n, m, ini, short) == LET r == DkBoth(I, BStr(d, n), m, ini, short) IN ResO(r.i, 0, r.o)

(* what the object holds is the sum over the strings so far, and what it has  *)
(* given out is the output of the function                                     *)
DkInv(I) ==
    /\ Len(I.x) = Width(I.kd) /\ Len(I.q) < Width(I.kd) /\ Len(I.w) < Width(I.kd)
    /\ I.k = MaskOf(I.kd, I.K)
    /\ I.ph = "comp" =>
         LET r == FAll(I.kd, I.ss, Zero(Width(I.kd)), I.k)
             full == Len(I.c) - (Len(I.c) % Width(I.kd))
             t == FSum(I.kd, Cut(I.c, 0, full), 0, r.x, r.m)
         IN  I.x = t.x /\ I.kr = t.m /\ I.q = Cut(I.c, full, Len(I.c) - full)
    /\ I.ph \in {"exp", "done"} =>
         LET f == DeckFn(I.kd, I.K, I.ss, I.sh, Len(I.o)) IN
         IF I.ph = "exp" \/ I.o = <<>> THEN I.o = f
         ELSE Cut(I.o, 0, Len(I.o) - 1) = Cut(f, 0, Len(f) - 1) /\ \E n \in 1..8 : I.o[Len(I.o)] = Low(f[Len(f)], n)
=============================================================================
