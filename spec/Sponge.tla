------------------------------- MODULE Sponge ------------------------------
(* The sponge construction: lib/high/Keccak/KeccakSponge.inc (24 rounds) and  *)
(* lib/high/TurboSHAKE (12 rounds).                                           *)
EXTENDS Prim

(* ------------------------------------------------------------------------ *)
(* A. Functional level (FIPS 202, section 4): the output stream for a        *)
(*    message (bytes) and delimited suffix bits.                             *)
(* ------------------------------------------------------------------------ *)
(* message || suffix || 10*1, as a whole number of blocks of rb bytes. The    *)
(* delimiter bit of `delim` is the first bit of the padding.                  *)
SuffixBits(delim) == CHOOSE n \in 0..7 : 2^n <= delim /\ delim < 2^(n+1)
PaddedLen(mlen, delim, rb) == rb * CeilDiv(8 * mlen + SuffixBits(delim) + 2, 8 * rb)
Padded(m, delim, rb) ==
    LET n == PaddedLen(Len(m), delim, rb)
        z == m \o Zero(n - Len(m))
    IN  XorAt(XorAt(z, Len(m), Bytes1(delim)), n - 1, Bytes1(128))
RECURSIVE AbsorbBlocksFrom(_, _, _, _, _)
AbsorbBlocksFrom(nr, s, rb, p, off) ==
    IF off + rb > Len(p) THEN s
    ELSE AbsorbBlocksFrom(nr, Perm("K", nr, XorAt(s, 0, Cut(p, off, rb))), rb, p, off + rb)
RECURSIVE StreamFrom(_, _, _, _)
StreamFrom(nr, s, rb, n) ==
    IF n <= rb THEN Cut(s, 0, n) ELSE Cut(s, 0, rb) \o StreamFrom(nr, Perm("K", nr, s), rb, n - rb)
SpongeFn(nr, rb, m, delim, n) ==
    StreamFrom(nr, AbsorbBlocksFrom(nr, Zero(Width("K")), rb, Padded(m, delim, rb), 0), rb, n)

(* ------------------------------------------------------------------------ *)
(* B. Operational level: one record per instance, one operator per call.     *)
(*    nr: rounds; rb: rate in bytes; st: state; ix: byte position in the      *)
(*    block; sq: squeezing.  m, d, o are history (message absorbed, suffix,   *)
(*    bytes output so far), used only by the invariants.                      *)
(* ------------------------------------------------------------------------ *)
SpRateOK(rate, cap) == rate + cap = 8 * Width("K") /\ rate > 0 /\ rate <= 8 * Width("K") /\ rate % 8 = 0

SpNew(nr, rb) == [ty |-> "sp", nr |-> nr, rb |-> rb, st |-> Zero(Width("K")), ix |-> 0, sq |-> FALSE,
                  m |-> <<>>, d |-> 1, o |-> <<>>]

RECURSIVE SpAbsLoop(_, _, _)
SpAbsLoop(I, x, pos) ==
    IF pos = Len(x) THEN I
    ELSE LET n == MinOf(Len(x) - pos, I.rb - I.ix)
             s == XorAt(I.st, I.ix, Cut(x, pos, n))
         IN  SpAbsLoop(IF I.ix + n = I.rb THEN [I EXCEPT !.st = Perm("K", I.nr, s), !.ix = 0]
                                          ELSE [I EXCEPT !.st = s, !.ix = I.ix + n], x, pos + n)
SpAbs(I, x) == [SpAbsLoop(I, x, 0) EXCEPT !.m = I.m \o x]

(* b: the byte with the suffix bits and the delimiter; hi: its delimiter is   *)
(* the most significant bit                                                   *)
SpPadB(I, b, hi) ==
    LET s1 == XorAt(I.st, I.ix, <<b>>)
        s2 == IF hi /\ I.ix = I.rb - 1 THEN Perm("K", I.nr, s1) ELSE s1
        s3 == XorAt(s2, I.rb - 1, Bytes1(128))
    IN  [I EXCEPT !.st = Perm("K", I.nr, s3), !.ix = 0, !.sq = TRUE]
SpPad(I, delim) == [SpPadB(I, Byt(delim), delim >= 128) EXCEPT !.d = delim]

RECURSIVE SpSqzLoop(_, _, _)
SpSqzLoop(I, n, acc) ==
    IF n = 0 THEN [i |-> I, o |-> acc]
    ELSE LET J == IF I.ix = I.rb THEN [I EXCEPT !.st = Perm("K", I.nr, I.st), !.ix = 0] ELSE I
             k == MinOf(n, J.rb - J.ix)
         IN  SpSqzLoop([J EXCEPT !.ix = J.ix + k], n - k, acc \o Cut(J.st, J.ix, k))
SpSqz(I, n) ==
    LET r == SpSqzLoop(IF I.sq THEN I ELSE SpPad(I, 1), n, <<>>)
    IN  [i |-> [r.i EXCEPT !.o = I.o \o r.o], o |-> r.o]

(* The calls.  Each gives the instance after the call (i) and what the call  *)
(* returns (e: rc and, where the call outputs something, o).                  *)
Res(i, rc) == [i |-> i, e |-> [rc |-> rc]]
ResO(i, rc, o) == [i |-> i, e |-> [rc |-> rc, out |-> o]]

SpCallInit(I, nr, rate, cap) == IF SpRateOK(rate, cap) THEN Res(SpNew(nr, rate \div 8), 0) ELSE Res(I, 1)
SpCallAbsorb(I, x) == IF I.sq THEN Res(I, 1) ELSE Res(SpAbs(I, x), 0)
SpCallLast(I, delim) == IF delim = 0 \/ I.sq THEN Res(I, 1) ELSE Res(SpPad(I, delim), 0)
SpCallSqueeze(I, n) == LET r == SpSqz(I, n) IN ResO(r.i, 0, r.o)
SpCallOneShot(I, nr, rate, cap, x, delim, n) ==
    IF SpRateOK(rate, cap) /\ delim # 0 THEN ResO(I, 0, SpongeFn(nr, rate \div 8, x, delim, n)) ELSE ResO(I, 1, <<>>)

(* ------------------------------------------------------------------------ *)
(* Invariants                                                                *)
(* ------------------------------------------------------------------------ *)
SpTypeOK(I) == /\ Len(I.st) = Width("K")
               /\ IF I.sq THEN I.ix <= I.rb ELSE I.ix < I.rb
(* whatever the call pattern, the output is a prefix of the functional stream *)
SpOutputOK(I) == I.sq => I.o = SpongeFn(I.nr, I.rb, I.m, I.d, Len(I.o))
(* while absorbing, the state is a function of the message alone *)
SpAbsorbOK(I) == ~I.sq =>
    LET full == I.rb * (Len(I.m) \div I.rb)
    IN  /\ I.ix = Len(I.m) - full
        /\ I.st = XorAt(AbsorbBlocksFrom(I.nr, Zero(Width("K")), I.rb, Cut(I.m, 0, full), 0), 0, Cut(I.m, full, I.ix))
SpInv(I) == SpTypeOK(I) /\ SpAbsorbOK(I) /\ SpOutputOK(I)
=============================================================================
