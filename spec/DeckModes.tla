------------------------------ MODULE DeckModes -----------------------------
(* Farfalle-SANE, -SANSE, -WBC and -WBC-AE on the deck functions.             *)
(* lib/high/Kravatte/KravatteModes.c, lib/high/Xoofff/XoofffModes.c            *)
EXTENDS Deck
CONSTANTS TagA,         \* SANE tag length in bytes (16)
          TagS,         \* SANSE tag length (32)
          Tred,         \* WBC-AE redundancy in bits (128)
          Ell           \* WBC granularity in bits (8)

(* ------------------------------------------------------------------------ *)
(* A. The modes on the function: h is the history, a sequence of strings       *)
(* ------------------------------------------------------------------------ *)
XorBits(s, o) == [d |-> XorS(s.d, o), n |-> s.n]
SaneHist(h, e, A, C) ==
    LET h1 == IF A.n # 0 \/ C.n = 0 THEN Append(h, AppendBits(A, <<2 * e, 2>>)) ELSE h          \* A || 0 || e
    IN  IF C.n # 0 THEN Append(h1, AppendBits(C, <<1 + (2 * e), 2>>)) ELSE h1                     \* C || 1 || e
SaneTag(kd, K, h) == DeckFn(kd, K, h, FALSE, TagA)
SaneStream(kd, K, h, n) == DeckBits(kd, K, h, FALSE, TagA, n)                                     \* follows the tag bits

SansePre(h, e, A, n) == IF A.n # 0 \/ n = 0 THEN Append(h, AppendBits(A, <<2 * e, 2>>)) ELSE h    \* A || 0 || e
SanseTag(kd, K, h) == DeckFn(kd, K, h, FALSE, TagS)
SanseStream(kd, K, h, e, T, n) == DeckBits(kd, K, Append(h, AppendBits(BStr(T, 8 * Len(T)), <<3 + (4 * e), 3>>)), FALSE, 0, n)
SanseHist(h, e, P) == IF P.n # 0 THEN Append(h, AppendBits(P, <<2 + (4 * e), 3>>)) ELSE h         \* P || 01 || e

(* number of bits of the left branch *)
RECURSIVE TopPow(_, _)
TopPow(q, x) == IF 2 ^ (x + 1) < q THEN TopPow(q, x + 1) ELSE 2 ^ x        \* largest power of 2 below q >= 2
WSplit(kd, n) ==
    LET b == 8 * Width(kd) IN
    IF n <= 2 * b - (Ell + 2) THEN Ell * ((n + Ell) \div (2 * Ell))
    ELSE LET q == CeilDiv(n + Ell + 2, b) IN (q - TopPow(q, 0)) * b - Ell
(* the Feistel network: G(i) are the round functions' outputs *)
LeftOf(s, nl) == [d |-> Cut(s.d, 0, nl \div 8), n |-> nl]
RightOf(s, nl) == [d |-> Cut(s.d, nl \div 8, Len(s.d) - (nl \div 8)), n |-> s.n - nl]
AddTo(s, o, n) == LET m == CeilDiv(n, 8) IN [d |-> XorS(Cut(s.d, 0, m), o) \o Cut(s.d, m, Len(s.d) - m), n |-> s.n]
Hk(kd, K, s, bit, n) == DeckBits(kd, K, <<AppendBits(s, <<bit, 1>>)>>, TRUE, 0, n)
Fk(kd, K, W, s, bit, n) == DeckBits(kd, K, <<W, AppendBits(s, <<bit, 1>>)>>, FALSE, 0, n)
WbcFn(kd, K, W, s) ==
    LET b == 8 * Width(kd)  nl == WSplit(kd, s.n)
        L0 == LeftOf(s, nl)  R0 == RightOf(s, nl)  l0 == MinOf(b, nl)  r0 == MinOf(b, R0.n)
        R1 == AddTo(R0, Hk(kd, K, L0, 0, r0), r0)
        L1 == AddTo(L0, Fk(kd, K, W, R1, 1, nl), nl)
        R2 == AddTo(R1, Fk(kd, K, W, L1, 0, R1.n), R1.n)
        L2 == AddTo(L1, Hk(kd, K, R2, 1, l0), l0)
    IN  [d |-> L2.d \o R2.d, n |-> s.n]
WbcInv(kd, K, W, s) ==
    LET b == 8 * Width(kd)  nl == WSplit(kd, s.n)
        L2 == LeftOf(s, nl)  R2 == RightOf(s, nl)  l0 == MinOf(b, nl)  r0 == MinOf(b, R2.n)
        L1 == AddTo(L2, Hk(kd, K, R2, 1, l0), l0)
        R1 == AddTo(R2, Fk(kd, K, W, L1, 0, R2.n), R2.n)
        L0 == AddTo(L1, Fk(kd, K, W, R1, 1, nl), nl)
        R0 == AddTo(R1, Hk(kd, K, L0, 0, r0), r0)
    IN  [d |-> L0.d \o R0.d, n |-> s.n]
(* the plaintext followed by zero bits *)
WithZero(s) == [d |-> s.d \o Zero(CeilDiv(s.n + Tred, 8) - Len(s.d)), n |-> s.n + Tred]
WbcAeOpen(kd, K, W, c) ==
    LET p == WbcInv(kd, K, W, c)  n == c.n - Tred
        plain == BStr(p.d, n)
    IN  [ok |-> p = WithZero(plain), p |-> p]

(* ------------------------------------------------------------------------ *)
(* B. Sessions, on the deck object                                            *)
(* D: the object, e: parity, h: history so far, dead: a message was rejected   *)
(* (what a session does after that is not specified)                           *)
(* ------------------------------------------------------------------------ *)
DkAdd(D, s) == DkCompress(D, s, FALSE, TRUE)
SaCallInit(I, kd, k, kn, d, n) ==
    IF kn >= 8 * Width(kd) THEN ResO(I, 1, <<>>)
    ELSE LET N == BStr(d, n)
             r == DkExpand(DkCompress(DkNew(kd, BStr(k, kn)), N, TRUE, TRUE), 8 * TagA, FALSE, FALSE)
         IN  ResO([ty |-> "sane", kd |-> kd, D |-> r.i, e |-> 0, h |-> <<N>>, dead |-> FALSE, n |-> 0], 0, r.o)
SaStep(I, A, C, D) ==     \* the history grows by A and C; gives the next tag
    LET D1 == IF A.n # 0 \/ C.n = 0 THEN DkAdd(D, AppendBits(A, <<2 * I.e, 2>>)) ELSE D
        D2 == IF C.n # 0 THEN DkAdd(D1, AppendBits(C, <<1 + (2 * I.e), 2>>)) ELSE D1
        r == DkExpand(D2, 8 * TagA, FALSE, FALSE)
    IN  [i |-> [I EXCEPT !.D = r.i, !.e = 1 - I.e, !.h = SaneHist(I.h, I.e, A, C), !.n = I.n + 1], t |-> r.o]
SaWrap(I, P, A) ==
    LET x == IF P.n = 0 THEN [i |-> I.D, o |-> <<>>] ELSE DkExpand(I.D, P.n, FALSE, TRUE)
        C == XorBits(P, x.o)
        r == SaStep(I, A, C, x.i)
    IN  [i |-> r.i, c |-> C.d, t |-> r.t]
SaUnwrap(I, C, A, T) ==
    LET x == IF C.n = 0 THEN [i |-> I.D, o |-> <<>>] ELSE DkExpand(I.D, C.n, FALSE, TRUE)
        P == XorBits(C, x.o)
        r == SaStep(I, A, C, x.i)
        ok == r.t = T
    IN  [i |-> [r.i EXCEPT !.dead = ~ok], ok |-> ok, p |-> IF ok THEN P.d ELSE Zero(Len(P.d))]

SsCallInit(I, kd, k, kn) ==
    IF kn >= 8 * Width(kd) THEN Res(I, 1)
    ELSE Res([ty |-> "sanse", kd |-> kd, D |-> DkNew(kd, BStr(k, kn)), e |-> 0, h |-> <<>>, dead |-> FALSE, n |-> 0], 0)
SsStep(I, A, n) == IF A.n # 0 \/ n = 0 THEN DkAdd(I.D, AppendBits(A, <<2 * I.e, 2>>)) ELSE I.D
SsTag(D, I, P) == LET D2 == IF P.n = 0 THEN D ELSE DkAdd(D, AppendBits(P, <<2 + (4 * I.e), 3>>))
                      r == DkExpand(D2, 8 * TagS, FALSE, FALSE)
                  IN  [d |-> IF P.n = 0 THEN r.i ELSE D2, t |-> r.o]
SsStream(D, I, T, n) == DkExpand(DkAdd(D, AppendBits(BStr(T, 8 * Len(T)), <<3 + (4 * I.e), 3>>)), n, FALSE, TRUE).o
SsNext(I, D, A, P) == [I EXCEPT !.D = D, !.e = 1 - I.e, !.h = SanseHist(SansePre(I.h, I.e, A, P.n), I.e, P), !.n = I.n + 1]
SsWrap(I, P, A) ==
    LET D1 == SsStep(I, A, P.n)
        g == SsTag(D1, I, P)
        C == IF P.n = 0 THEN <<>> ELSE XorBits(P, SsStream(D1, I, g.t, P.n)).d
    IN  [i |-> SsNext(I, g.d, A, P), c |-> C, t |-> g.t]
SsUnwrap(I, C, A, T) ==
    LET D1 == SsStep(I, A, C.n)
        P == IF C.n = 0 THEN C ELSE XorBits(C, SsStream(D1, I, T, C.n))
        g == SsTag(D1, I, P)
        ok == g.t = T
    IN  [i |-> [SsNext(I, g.d, A, P) EXCEPT !.dead = ~ok], ok |-> ok, p |-> IF ok THEN P.d ELSE Zero(Len(P.d))]

(* both: what a call returns *)
ResW(r) == [i |-> r.i, e |-> [rc |-> 0, out |-> r.c, tag |-> r.t]]
ResU(r) == [i |-> r.i, e |-> [rc |-> IF r.ok THEN 0 ELSE 1, out |-> r.p]]
CallWrap(I, P, A) == ResW(IF I.ty = "sane" THEN SaWrap(I, P, A) ELSE SsWrap(I, P, A))
CallUnwrap(I, C, A, T) == ResU(IF I.ty = "sane" THEN SaUnwrap(I, C, A, T) ELSE SsUnwrap(I, C, A, T))

(* the wide block ciphers use a deck object with its mask derived *)
Dirty(I) == [I EXCEPT !.ph = "dirty", !.ss = <<>>, !.c = <<>>, !.q = <<>>, !.w = <<>>, !.o = <<>>]
CallWbc(I, dec, s, W) == ResO(Dirty(I), 0, (IF dec THEN WbcInv(I.kd, I.K, W, s) ELSE WbcFn(I.kd, I.K, W, s)).d)
CallWbcAeE(I, s, W) == ResO(Dirty(I), 0, WbcFn(I.kd, I.K, W, WithZero(s)).d)
CallWbcAeD(I, c, W) ==
    LET r == WbcAeOpen(I.kd, I.K, W, c) IN ResO(Dirty(I), IF r.ok THEN 0 ELSE 1, IF r.ok THEN r.p.d ELSE Zero(Len(c.d)))

(* the object of a session has absorbed exactly the history of the mode, and   *)
(* its next tag and key stream are the ones of the mode                         *)
SeInv(I) == I.dead \/ (DkInv(I.D) /\ I.D.ss = I.h /\ I.e = I.n % 2)
=============================================================================
