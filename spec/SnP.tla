-------------------------------- MODULE SnP --------------------------------
(* The low-level interface (doc/SnP-documentation.h, PlSnP-documentation.h):  *)
(* p parallel permutation states (p = 1 for SnP) of kind k ("K": Keccak-p     *)
(* [1600], "X": Xoodoo), each an array of bytes.                              *)
EXTENDS Prim
CONSTANT LaneB(_)     \* lane size in bytes

SnpNew(k, p) == [ty |-> "snp", k |-> k, p |-> p, st |-> [j \in 1..p |-> Zero(Width(k))], c |-> 0]
SnpTypeOK(I) == Len(I.st) = I.p /\ \A j \in 1..I.p : Len(I.st[j]) = Width(I.k)

SOk(I) == [i |-> [I EXCEPT !.c = I.c + 1], e |-> [z |-> 0]]
SOut(I, o) == [i |-> [I EXCEPT !.c = I.c + 1], e |-> [out |-> o]]

SnpInit(I, k, p) == SOk([SnpNew(k, p) EXCEPT !.c = IF I.ty = "none" THEN 0 ELSE I.c])
SnpAddByte(I, j, b, off) == SOk([I EXCEPT !.st[j] = XorAt(I.st[j], off, Bytes1(b))])
SnpAdd(I, j, x, off) == SOk([I EXCEPT !.st[j] = XorAt(I.st[j], off, x)])
SnpOver(I, j, x, off) == SOk([I EXCEPT !.st[j] = Put(I.st[j], off, x)])
SnpZero(I, j, n) == SOk([I EXCEPT !.st[j] = Put(I.st[j], 0, Zero(n))])
SnpPerm(I, nr) == SOk([I EXCEPT !.st = [j \in 1..I.p |-> Perm(I.k, nr, I.st[j])]])
SnpExtract(I, j, off, n) == SOut(I, Cut(I.st[j], off, n))
SnpExtAdd(I, j, x, off) == SOut(I, XorS(x, Cut(I.st[j], off, Len(x))))

(* Bulk lane access: instance j uses lc lanes at lane offset (j-1)*lo of data *)
Span(I, lc, lo) == LaneB(I.k) * ((I.p - 1) * lo + lc)
LanesOf(I, x, j, lc, lo) == Cut(x, LaneB(I.k) * (j - 1) * lo, LaneB(I.k) * lc)
SnpAddLanes(I, x, lc, lo) == SOk([I EXCEPT !.st = [j \in 1..I.p |-> XorAt(I.st[j], 0, LanesOf(I, x, j, lc, lo))]])
SnpOverLanes(I, x, lc, lo) == SOk([I EXCEPT !.st = [j \in 1..I.p |-> Put(I.st[j], 0, LanesOf(I, x, j, lc, lo))]])
RECURSIVE CatTo(_, _)
CatTo(s, n) == IF n = 0 THEN <<>> ELSE CatTo(s, n - 1) \o s[n]
Cat(s) == CatTo(s, Len(s))
SnpExtLanes(I, lc, lo) == SOut(I, Cat([j \in 1..I.p |-> Cut(I.st[j], 0, LaneB(I.k) * lc)]))
SnpExtAddLanes(I, x, lc, lo) ==
    SOut(I, Cat([j \in 1..I.p |-> XorS(LanesOf(I, x, j, lc, lo), Cut(I.st[j], 0, LaneB(I.k) * lc))]))

(* Fast loop.  A: as many iterations as the data length allows. *)
FastCount(I, lc, lo, ls, n) ==
    IF n < Span(I, lc, lo) THEN 0 ELSE ((n - Span(I, lc, lo)) \div (LaneB(I.k) * ls)) + 1
RECURSIVE FastIter(_, _, _, _, _, _, _)
FastIter(I, nr, x, lc, lo, ls, c) ==
    IF c = 0 THEN I
    ELSE LET J == FastIter(I, nr, x, lc, lo, ls, c - 1)
         IN  SnpPerm(SnpAddLanes(J, Cut(x, (c - 1) * ls * LaneB(I.k), Span(I, lc, lo)), lc, lo).i, nr).i
SnpFast(I, nr, x, lc, lo, ls) ==
    LET c == FastCount(I, lc, lo, ls, Len(x))
        J == FastIter(I, nr, x, lc, lo, ls, c)
    IN  [i |-> [J EXCEPT !.c = I.c + 1], e |-> [ret |-> c * ls * LaneB(I.k)]]
(* B: the loop as it is written in the implementations *)
RECURSIVE FastLoop(_, _, _, _, _, _, _, _)
FastLoop(I, nr, x, lc, lo, ls, pos, rem) ==
    IF rem < Span(I, lc, lo) THEN [i |-> I, ret |-> pos]
    ELSE FastLoop(SnpPerm(SnpAddLanes(I, Cut(x, pos, Span(I, lc, lo)), lc, lo).i, nr).i, nr, x, lc, lo, ls,
                  pos + ls * LaneB(I.k), rem - ls * LaneB(I.k))
=============================================================================
