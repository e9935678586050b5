--------------------------------- MODULE PRG -------------------------------
(* The sponge-based pseudo-random generator: lib/high/Keccak/PRG.             *)
EXTENDS Duplex

Rho(rate) == (rate - 2) \div 8          \* bytes per duplexing call
PrgRateOK(cap) == cap <= 8 * Width("K") - 10

(* ------------------------------------------------------------------------ *)
(* A. Functional level.  The history is a sequence of rounds: bytes fed, then *)
(* number of bytes fetched, then whether it ends with a forget.  Within a     *)
(* round only the concatenation of what is fed and the total fetched count.   *)
(* ------------------------------------------------------------------------ *)
PBlock(st, rate, x, ow) == ABlock(st, rate, Cells(x, ow), 1)
RECURSIVE PFeed(_, _, _)
PFeed(st, rate, m) ==                   \* state after all full blocks, and the rest
    IF Len(m) < Rho(rate) THEN [st |-> st, rest |-> m]
    ELSE PFeed(PBlock(st, rate, Cut(m, 0, Rho(rate)), FALSE), rate, Cut(m, Rho(rate), Len(m) - Rho(rate)))
RECURSIVE PFetch(_, _, _, _)
PFetch(st, rate, rest, n) ==            \* n > 0
    LET s == PBlock(st, rate, rest, FALSE)
    IN  IF n <= Rho(rate) THEN [st |-> s, out |-> Cut(s, 0, n)]
        ELSE LET r == PFetch(s, rate, <<>>, n - Rho(rate)) IN [r EXCEPT !.out = Cut(s, 0, Rho(rate)) \o r.out]
PForget(st, rate, rest) == PBlock(PBlock(st, rate, rest, FALSE), rate, Zero(Rho(rate)), TRUE)
(* state, rest and output of a round *)
PRound(st, rate, rd) ==
    LET f == PFeed(st, rate, rd.m)
        g == IF rd.n > 0 THEN [r |-> PFetch(f.st, rate, f.rest, rd.n), rest |-> <<>>]
             ELSE [r |-> [st |-> f.st, out |-> <<>>], rest |-> f.rest]
    IN  [st |-> IF rd.forget THEN PForget(g.r.st, rate, g.rest) ELSE g.r.st, rest |-> IF rd.forget THEN <<>> ELSE g.rest, out |-> g.r.out]
RECURSIVE PState(_, _, _)
PState(rate, h, k) == IF k = 0 THEN Zero(Width("K")) ELSE PRound(PState(rate, h, k - 1), rate, h[k]).st
PrgOut(rate, h) == PRound(PState(rate, h, Len(h) - 1), rate, h[Len(h)]).out     \* of the last round

(* ------------------------------------------------------------------------ *)
(* B. Operational level: on top of the duplex object du.                      *)
(* h: finished rounds; m, o: fed and fetched in the current one               *)
(* ------------------------------------------------------------------------ *)
PrgNew(cap) == [ty |-> "prg", du |-> DuNew(8 * Width("K") - cap), h |-> <<>>, m |-> <<>>, o |-> <<>>]
PRes(i, rc) == [i |-> i, e |-> [rc |-> rc]]
PResO(i, rc, o) == [i |-> i, e |-> [rc |-> rc, out |-> o]]
NoH(d) == [d EXCEPT !.h = <<>>]         \* the history of the duplex object is not needed
Dup(d) == NoH(DuDuplexing(d, <<>>, 1))
PrgCallInit(I, cap) == IF PrgRateOK(cap) THEN PRes(PrgNew(cap), 0) ELSE PRes(I, 1)
RECURSIVE PrgFeedLoop(_, _, _)
PrgFeedLoop(d, x, pos) ==
    LET room == Rho(d.rate) - d.ii
        n == Len(x) - pos
    IN  IF n >= room THEN PrgFeedLoop(Dup(DuCallFeed(d, Cut(x, pos, room)).i), x, pos + room)
        ELSE [DuCallFeed(d, Cut(x, pos, n)).i EXCEPT !.oi = Rho(d.rate)]
Round(m, n, f) == [m |-> m, n |-> n, forget |-> f]
Close(I) == IF Len(I.o) > 0 THEN [I EXCEPT !.h = Append(I.h, Round(I.m, Len(I.o), FALSE)), !.m = <<>>, !.o = <<>>] ELSE I
PrgCallFeed(I, x) ==
    LET J == Close(I) IN PRes([J EXCEPT !.du = PrgFeedLoop(I.du, x, 0), !.m = J.m \o x], 0)
RECURSIVE PrgFetchLoop(_, _, _)
PrgFetchLoop(d, n, acc) ==
    IF n = 0 THEN [d |-> d, o |-> acc]
    ELSE LET e == IF d.oi < Rho(d.rate) THEN d ELSE Dup(d)
             k == MinOf(n, Rho(d.rate) - e.oi)
             r == DuCallGet(e, k)
         IN  PrgFetchLoop(r.i, n - k, acc \o r.e.out)
PrgCallFetch(I, n) ==
    LET r == PrgFetchLoop(I.du, n, <<>>) IN PResO([I EXCEPT !.du = r.d, !.o = I.o \o r.o], 0, r.o)
PrgForgetOK(I) == 8 * Rho(I.du.rate) >= 8 * Width("K") - I.du.rate
PrgCallForget(I) ==
    IF ~PrgForgetOK(I) THEN PRes(I, 1)
    ELSE LET d == Dup(DuCallOverZeroes(Dup(I.du), Rho(I.du.rate)).i)
         IN  PRes([I EXCEPT !.du = [d EXCEPT !.oi = Rho(d.rate)], !.h = Append(I.h, Round(I.m, Len(I.o), TRUE)), !.m = <<>>, !.o = <<>>], 0)

PrgInv(I) ==
    LET rate == I.du.rate
        r == PRound(PState(rate, I.h, Len(I.h)), rate, Round(I.m, Len(I.o), FALSE))
    IN  /\ DuTypeOK(I.du)
        /\ I.o = r.out
        /\ I.du.st = XorAt(r.st, 0, r.rest)
        /\ (I.du.oi < Rho(rate)) => I.du.ii = 0        \* no output of an older state once something was fed
=============================================================================
