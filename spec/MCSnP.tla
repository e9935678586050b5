-------------------------------- MODULE MCSnP ------------------------------
(* The byte-array view of a group of states against two representations used  *)
(* by implementations: lanes of the instances interleaved in memory (SIMD),    *)
(* and some lanes stored complemented (lane complementing).  Every operation   *)
(* of the interface, for every offset and length, from every reachable state.  *)
EXTENDS SnP, SymPrim, TLC, FiniteSets
CONSTANTS P, LaneLen, MaxOps
VARIABLES A,      \* abstract: P byte arrays
          F,      \* memory: one array with the lanes of the instances interleaved, mask XORed in
          c
vars == <<A, F, c>>
SymLane(k) == LaneLen
W == SymWidth
L == LaneLen
Idx(j, off) == (j - 1) * L + (off \div L) * P * L + (off % L)          \* 0-based
Mask(off) == IF (off \div L) % 2 = 1 THEN 255 ELSE 0                   \* odd lanes are complemented
MaskOf(j) == [q \in 1..W |-> SByt(Mask(q - 1))]
Layout(I) == [q \in 1..(P * W) |->
    LET lane == (q - 1) \div L
        j == (lane % P) + 1
        off == (lane \div P) * L + ((q - 1) % L)
    IN  SymDiff(I.st[j][off + 1], SByt(Mask(off)))]
(* the operations on the memory *)
Get(f, j, off) == SymDiff(f[Idx(j, off) + 1], SByt(Mask(off)))
MAdd(f, j, x, off) == [q \in 1..(P * W) |->
    IF \E t \in 0..(Len(x) - 1) : q = Idx(j, off + t) + 1
    THEN SymDiff(f[q], x[(CHOOSE t \in 0..(Len(x) - 1) : q = Idx(j, off + t) + 1) + 1]) ELSE f[q]]
MOver(f, j, x, off) == [q \in 1..(P * W) |->
    IF \E t \in 0..(Len(x) - 1) : q = Idx(j, off + t) + 1
    THEN LET t == CHOOSE t \in 0..(Len(x) - 1) : q = Idx(j, off + t) + 1
         IN  SymDiff(x[t + 1], SByt(Mask(off + t))) ELSE f[q]]
RECURSIVE MAll(_, _, _, _, _, _)
MAll(Op(_, _, _, _), f, x, lc, lo, j) ==
    IF j = 0 THEN f ELSE Op(MAll(Op, f, x, lc, lo, j - 1), j, Cut(x, L * (j - 1) * lo, L * lc), 0)
MPerm(f) ==
    LET st == [j \in 1..P |-> SPerm("K", 24, [q \in 1..W |-> Get(f, j, q - 1)])]
    IN  Layout([st |-> st])
D(n) == SData([s |-> c + 1, o |-> 0, n |-> n])
LaneMax == W \div L

Init == A = SnpNew("K", P) /\ F = Layout(SnpNew("K", P)) /\ c = 0
Step(I, f) == A' = I /\ F' = f /\ c' = c + 1
Offs == {<<o, n>> \in (0..W) \X (0..W) : o + n <= W /\ o < W}
Add == \E j \in 1..P, on \in Offs : Step(SnpAdd(A, j, D(on[2]), on[1]).i, MAdd(F, j, D(on[2]), on[1]))
Over == \E j \in 1..P, on \in Offs : Step(SnpOver(A, j, D(on[2]), on[1]).i, MOver(F, j, D(on[2]), on[1]))
ZeroB == \E j \in 1..P, n \in 0..W : Step(SnpZero(A, j, n).i, MOver(F, j, Zero(n), 0))
Permute == Step(SnpPerm(A, 24).i, MPerm(F))
AddL == \E lc \in 0..LaneMax, lo \in 0..(LaneMax + 1) :
    LET x == D(Span(A, lc, lo)) IN Step(SnpAddLanes(A, x, lc, lo).i, MAll(MAdd, F, x, lc, lo, P))
OverL == \E lc \in 0..LaneMax, lo \in 0..(LaneMax + 1) :
    LET x == D(Span(A, lc, lo)) IN Step(SnpOverLanes(A, x, lc, lo).i, MAll(MOver, F, x, lc, lo, P))
Next == c < MaxOps /\ (Add \/ Over \/ ZeroB \/ Permute \/ AddL \/ OverL)
Spec == Init /\ [][Next]_vars

TypeOK == SnpTypeOK(A)
Refines == F = Layout(A)
(* the layout is a bijection, so no two (instance, offset) share memory *)
Bijective == Cardinality({Idx(j, o) : j \in 1..P, o \in 0..(W - 1)}) = P * W
(* extraction never disturbs, extraction with addition is XOR *)
Extracts == \A j \in 1..P, on \in Offs :
    /\ [q \in 1..on[2] |-> Get(F, j, on[1] + q - 1)] = SnpExtract(A, j, on[1], on[2]).e.out
    /\ SXorS(SnpExtAdd(A, j, D(on[2]), on[1]).e.out, D(on[2])) = SnpExtract(A, j, on[1], on[2]).e.out
(* no operation on one instance affects another *)
Independent == [][\A j \in 1..P : (\A i \in 1..P : i # j => A'.st[i] = A.st[i]) \/ c' = c + 1]_vars
(* both descriptions of the fast loop agree, including the return value *)
FastAgree == c > 0 \/ \A lc \in 1..LaneMax, lo \in 0..(LaneMax + 1), ls \in 1..(LaneMax + 1), n \in 0..(4 * W) :
    (ls <= (P - 1) * lo + lc) =>
       LET x == D(n)
           a == SnpFast(A, 12, x, lc, lo, ls)
           b == FastLoop(A, 12, x, lc, lo, ls, 0, n)
       IN  a.e.ret = b.ret /\ a.i.st = b.i.st /\ a.e.ret <= n /\ n - a.e.ret < Span(A, lc, lo)
=============================================================================
