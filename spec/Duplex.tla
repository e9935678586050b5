------------------------------- MODULE Duplex ------------------------------
(* The duplex construction: lib/high/Keccak/KeccakDuplex.inc, any rate in     *)
(* bits.                                                                      *)
EXTENDS Prim

SuffixLen(delim) == CHOOSE n \in 0..7 : 2^n <= delim /\ delim < 2^(n+1)
RhoMax(rate) == rate - 2
RateBytes(rate) == CeilDiv(rate, 8)

(* ------------------------------------------------------------------------ *)
(* A. Functional level.  A duplexing input is a sequence of bytes, each       *)
(* either added to or put in place of the byte of the state there, and a      *)
(* suffix; the history of a duplex object is the sequence of its inputs.      *)
(* ------------------------------------------------------------------------ *)
ABlock(st, rate, cells, delim) ==
    LET s1 == [p \in 1..Len(st) |-> IF p <= Len(cells) /\ cells[p].ow THEN cells[p].v ELSE st[p]]
        add == [p \in 1..Len(st) |-> IF p <= Len(cells) /\ ~cells[p].ow THEN cells[p].v ELSE Byt(0)]
        pad == XorAt(XorAt(Zero(Len(st)), Len(cells), Bytes1(delim)), (rate - 1) \div 8, Bytes1(2^((rate - 1) % 8)))
    IN  Perm("K", 24, XorS(XorS(s1, add), pad))
RECURSIVE AState(_, _, _)
AState(rate, h, n) == IF n = 0 THEN Zero(Width("K")) ELSE ABlock(AState(rate, h, n - 1), rate, h[n].cells, h[n].delim)
(* the outer part of the state, as bytes *)
AOuter(st, rate) == IF rate % 8 = 0 THEN Cut(st, 0, rate \div 8)
                    ELSE Cut(st, 0, rate \div 8) \o <<Low(st[(rate \div 8) + 1], rate % 8)>>

(* ------------------------------------------------------------------------ *)
(* B. Operational level.  rate in bits; ii, oi: input and output indexes.     *)
(* h, cells: history (completed inputs, input so far); o: output of the       *)
(* current round so far (from index 0, without the parts combined with data)  *)
(* ------------------------------------------------------------------------ *)
DuRateOK(rate, cap) == rate + cap = 8 * Width("K") /\ rate > 2 /\ rate <= 8 * Width("K")
DuNew(rate) == [ty |-> "du", rate |-> rate, st |-> Zero(Width("K")), ii |-> 0, oi |-> RateBytes(rate), h |-> <<>>, cells |-> <<>>]
DRes(i, rc) == [i |-> i, e |-> [rc |-> rc]]
DResO(i, rc, o) == [i |-> i, e |-> [rc |-> rc, out |-> o]]
DuCallInit(I, rate, cap) == IF DuRateOK(rate, cap) THEN DRes(DuNew(rate), 0) ELSE DRes(I, 1)

Cells(x, ow) == [p \in 1..Len(x) |-> [v |-> x[p], ow |-> ow]]
InFits(I, n) == 8 * (I.ii + n) <= RhoMax(I.rate)
DelimFits(I, n, delim) == delim # 0 /\ 8 * (I.ii + n) + SuffixLen(delim) <= RhoMax(I.rate)
MaskTop(o, from, rate) == IF Len(o) > 0 /\ 8 * (from + Len(o)) > rate
                          THEN Cut(o, 0, Len(o) - 1) \o <<Low(o[Len(o)], rate % 8)>> ELSE o

DuCallFeed(I, x) ==
    IF ~InFits(I, Len(x)) THEN DRes(I, 1)
    ELSE DRes([I EXCEPT !.st = XorAt(I.st, I.ii, x), !.ii = I.ii + Len(x), !.cells = I.cells \o Cells(x, FALSE)], 0)
DuCallFeedZeroes(I, n) ==
    IF ~InFits(I, n) THEN DRes(I, 1)
    ELSE DRes([I EXCEPT !.ii = I.ii + n, !.cells = I.cells \o Cells(Zero(n), FALSE)], 0)
DuCallOver(I, x) ==
    IF ~InFits(I, Len(x)) THEN DRes(I, 1)
    ELSE DRes([I EXCEPT !.st = Put(I.st, I.ii, x), !.ii = I.ii + Len(x), !.cells = I.cells \o Cells(x, TRUE)], 0)
DuCallOverZeroes(I, n) ==
    IF ~InFits(I, n) \/ I.ii # 0 THEN DRes(I, 1)
    ELSE DRes([I EXCEPT !.st = Put(I.st, 0, Zero(n)), !.ii = n, !.cells = Cells(Zero(n), TRUE)], 0)
DuDuplexing(I, x, delim) ==
    LET s1 == XorAt(XorAt(I.st, I.ii, x), I.ii + Len(x), Bytes1(delim))
        s2 == XorAt(s1, (I.rate - 1) \div 8, Bytes1(2^((I.rate - 1) % 8)))
    IN  [I EXCEPT !.st = Perm("K", 24, s2), !.ii = 0, !.oi = 0, !.cells = <<>>,
                  !.h = Append(I.h, [cells |-> I.cells \o Cells(x, FALSE), delim |-> delim])]
DuCallDuplexing(I, x, n, delim) ==
    IF ~InFits(I, Len(x)) \/ ~DelimFits(I, Len(x), delim) \/ n > RateBytes(I.rate) THEN DResO(I, 1, <<>>)
    ELSE LET J == DuDuplexing(I, x, delim)
         IN  DResO([J EXCEPT !.oi = n], 0, MaskTop(Cut(J.st, 0, n), 0, I.rate))
DuCallGet(I, n) ==
    IF n > RateBytes(I.rate) - I.oi THEN DResO(I, 1, <<>>)
    ELSE DResO([I EXCEPT !.oi = I.oi + n], 0, MaskTop(Cut(I.st, I.oi, n), I.oi, I.rate))
DuCallGetAdd(I, x) ==
    LET n == Len(x)
    IN  IF n > RateBytes(I.rate) - I.oi THEN DResO(I, 1, <<>>)
        ELSE DResO([I EXCEPT !.oi = I.oi + n], 0, MaskTop(XorS(x, Cut(I.st, I.oi, n)), I.oi, I.rate))

(* ------------------------------------------------------------------------ *)
DuTypeOK(I) == /\ Len(I.st) = Width("K")
               /\ 8 * I.ii <= RhoMax(I.rate) /\ I.ii = Len(I.cells)
               /\ I.oi <= RateBytes(I.rate)
(* the state is the one the history determines, with the input so far applied *)
DuStateOK(I) ==
    LET s == AState(I.rate, I.h, Len(I.h))
    IN  I.st = [p \in 1..Len(s) |-> IF p > I.ii THEN s[p]
                                    ELSE IF I.cells[p].ow THEN I.cells[p].v ELSE XorAt(<<s[p]>>, 0, <<I.cells[p].v>>)[1]]
(* every input so far was within the maximum: the inner part of the state was *)
(* never touched by an input                                                  *)
DuInnerOK(I) == \A k \in 1..Len(I.h) : 8 * Len(I.h[k].cells) + SuffixLen(I.h[k].delim) <= RhoMax(I.rate)
DuInv(I) == DuTypeOK(I) /\ DuStateOK(I) /\ DuInnerOK(I)
(* what a call outputs *)
DuOutOK(I, J, op, x, n, out) ==     \* J: after the call
    LET from == IF op = "du.duplexing" THEN 0 ELSE I.oi
        cur == Cut(AOuter(AState(J.rate, J.h, Len(J.h)), J.rate), from, n)
    IN  (* between a feed and the next duplexing further output shows the fed state: documented use has none *)
        (op = "du.duplexing" \/ I.ii = 0) =>
            IF op = "du.getadd" THEN out = MaskTop(XorS(x, cur), from, J.rate) ELSE out = cur
=============================================================================
