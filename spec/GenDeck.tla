------------------------------ MODULE GenDeck ------------------------------
(* Behaviours of Kravatte (Kd = "K") and Xoofff (Kd = "X"), of their sessions  *)
(* and of their wide block ciphers.                                            *)
EXTENDS DeckModes, ConPrim, Rolls, GenLib, GenMachine
CONSTANTS Kd,
          Fam,            \* "deck", "sane", "sanse", "wbc"
          MaxBlk          \* largest number of blocks in one call
W == Width(Kd)
(* a length in bytes: rem bytes complete the current block *)
DLen(r, k, rem) ==
    LET c == Draw(r, k, 20)
        q == Draw(r, k + 1, MaxBlk)
        p == PickSeq(r, k + 1, <<2, 4, 8, 16, 3, 5, 9, 17, 12, 24>>)
    IN  CASE c < 10 -> PickLen(r, k + 2, rem, W)
          [] c \in {10, 11} -> rem + (W * q)
          [] c = 12 -> rem + (W * q) + 1
          [] c = 13 -> (W * (1 + q)) - 1
          [] c \in {14, 15} -> IF p <= MaxBlk THEN W * p ELSE W
          [] c = 16 -> IF p <= MaxBlk THEN (W * p) + Draw(r, k + 2, W) ELSE 2 * W
          [] OTHER -> Draw(r, k + 2, 3 * W)
(* in bits, the last byte incomplete now and then *)
DBits(r, k, rem, pc) == LET n == DLen(r, k, rem) IN IF n > 0 /\ Pct(r, k + 7, pc) THEN (8 * n) - 1 - Draw(r, k + 8, 7) ELSE 8 * n
BD(r, k, n) == PickData(r, k, CeilDiv(n, 8))
Key(r, k) ==
    LET c == Draw(r, k, 20)
    IN  CASE c < 8 -> 8 * PickSeq(r, k + 1, <<16, 32, 24, 20, 40, 47>>)
          [] c < 10 -> 8 * Draw(r, k + 1, W)
          [] c < 15 -> Draw(r, k + 1, 8 * W)
          [] c < 17 -> (8 * W) - 1 - Draw(r, k + 1, 9)
          [] c = 17 -> 0
          [] OTHER -> Draw(r, k + 1, 17)
BadKey(r, k) == (8 * W) + (IF Pct(r, k, 50) THEN 0 ELSE Draw(r, k + 1, 70))
Mask(r, k, bad) == LET n == IF bad THEN BadKey(r, k) ELSE Key(r, k) IN [op |-> "mask", d |-> BD(r, k + 5, n), b |-> n]
Nm(c) == [c EXCEPT !.op = (IF Kd = "K" THEN "kra." ELSE "xof.") \o c.op]

(* ---- the deck function ---- *)
Fresh(I) == I.ph # "comp" \/ (I.ss = <<>> /\ I.c = <<>>)
Rem(I) == W - Len(I.q)
ORem(I) == IF I.ph = "exp" THEN Len(I.w) ELSE W
Comp(r, k, I, ini) ==
    LET last == Pct(r, k, 45)
        bits == IF last THEN DBits(r, k + 1, Rem(I), 50) ELSE DBits(r, k + 1, Rem(I), 8)
    IN  [op |-> "comp", d |-> BD(r, k + 12, bits), b |-> bits, ini |-> ini, last |-> last]
Exp(r, k, I) == LET last == Pct(r, k, 30) IN
    [op |-> "exp", b |-> IF last THEN DBits(r, k + 1, ORem(I), 60) ELSE DBits(r, k + 1, ORem(I), 8), sh |-> Pct(r, k + 12, 30), last |-> last]
One(r, k, I) == LET n == DBits(r, k, Rem(I), 40) IN
    [op |-> "one", d |-> BD(r, k + 12, n), b |-> n, m |-> DBits(r, k + 20, W, 40), ini |-> I.ph = "dirty" \/ Pct(r, k + 30, 50), sh |-> Pct(r, k + 31, 40)]
DkChoose(b, I, r, final) ==
    LET c == Draw(r, 1, 100)  ini == Pct(r, 3, 25)
    IN  Nm(IF I.ty = "none" THEN Mask(r, 10, ~final /\ Pct(r, 2, 8))
        ELSE IF final THEN (IF I.ph = "exp" THEN Exp(r, 10, I) ELSE One(r, 10, I))
        ELSE IF c < 4 THEN Mask(r, 10, FALSE)
        ELSE IF c < 7 THEN Mask(r, 10, TRUE)
        ELSE IF I.ph = "comp" THEN
             (IF c < 55 THEN Comp(r, 10, I, ini)
              ELSE IF c < 88 /\ I.ss # <<>> /\ (I.c = <<>> \/ I.q # <<>>) THEN Exp(r, 10, I)    \* refused inside a block
              ELSE One(r, 10, I))
        ELSE IF c < 60 THEN Exp(r, 10, I)
        ELSE IF c < 85 THEN Comp(r, 10, I, ini)
        ELSE One(r, 10, I))
DkWild(b, I, r, final) ==
    LET c == Draw(r, 1, 100)
        n == (8 * DLen(r, 11, Rem(I))) + 1 + Draw(r, 3, 7)
    IN  IF final \/ c < 50 THEN DkChoose(b, I, r, final)
        ELSE Nm(IF I.ty = "none" \/ c < 62 THEN Mask(r, 10, TRUE)
             ELSE IF c < 80 THEN [op |-> "comp", d |-> BD(r, 22, n), b |-> n, ini |-> FALSE, last |-> FALSE]
             ELSE IF I.ph \in {"done", "exp"} \/ I.q # <<>> THEN [op |-> "exp", b |-> n, sh |-> Pct(r, 12, 30), last |-> I.ph # "exp"]
             ELSE Mask(r, 10, TRUE))
OpOf(c) == SubSeq(c.op, 5, Len(c.op))
DkApply(I, c) ==
    LET o == OpOf(c) IN
    CASE o = "mask" -> DkCallMask(I, Kd, Data(c.d), c.b)
      [] o = "comp" -> DkCallComp(I, Data(c.d), c.b, c.ini, c.last)
      [] o = "exp" -> DkCallExp(I, c.b, c.sh, c.last)
      [] o = "one" -> DkCallOne(I, Data(c.d), c.b, c.m, c.ini, c.sh)
DkGInv(I) == DkInv(I)

(* ---- sessions: the message of an unwrapping is made with the modes' definition from the ---- *)
(* ---- state the other side of the session is in, or is a forgery                         ---- *)
FlipBit(d, j) == XorAt(d, j \div 8, Bytes1(2 ^ (j % 8)))
ABits(r, k) == IF Pct(r, k, 25) THEN 0 ELSE DBits(r, k + 1, W, 45)
Dirt(r, k, s) ==      \* anything in the unused bits of the last byte
    IF s.n % 8 = 0 THEN s.d ELSE XorAt(s.d, Len(s.d) - 1, Bytes1((2 ^ (s.n % 8)) * Draw(r, k, 2 ^ (8 - (s.n % 8)))))
SInit(r, k, bad) ==
    LET n == IF bad THEN BadKey(r, k) ELSE Key(r, k)
        m == IF Pct(r, k + 20, 10) THEN 0 ELSE DBits(r, k + 21, W, 40)
        K == [op |-> Fam \o ".init", k |-> BD(r, k + 10, n), kb |-> n]
    IN  IF Fam = "sane" THEN K @@ [d |-> BD(r, k + 32, m), b |-> m] ELSE K
SMsg(r, k) ==
    LET n == IF Pct(r, k, 15) THEN 0 ELSE DBits(r, k + 1, W, 45)
        a == ABits(r, k + 12)
    IN  [p |-> BStr(Data(PickData(r, k + 24, CeilDiv(n, 8))), n), pd |-> PickData(r, k + 24, CeilDiv(n, 8)), a |-> BD(r, k + 30, a), ab |-> a]
SWrap(r, k) == LET m == SMsg(r, k) IN [op |-> Fam \o ".wrap", d |-> m.pd, b |-> m.p.n, a |-> m.a, ab |-> m.ab]
SUnwrap(r, k, I) ==
    LET m == SMsg(r, k)
        A == BStr(Data(m.a), m.ab)
        g == IF Fam = "sane" THEN SaWrap(I, m.p, A) ELSE SsWrap(I, m.p, A)
        f == Draw(r, k + 40, 24)
        C == Dirt(r, k + 41, [d |-> g.c, n |-> m.p.n])
        U(c, a, ab, t) == [op |-> Fam \o ".unwrap", c |-> c, b |-> m.p.n, a |-> a, ab |-> ab, t |-> t]
        AD == Dirt(r, k + 42, A)
    IN  CASE f \in {0, 1} -> U(C, AD, m.ab, FlipBit(g.t, Draw(r, k + 43, 8 * Len(g.t))))
          [] f = 2 /\ m.p.n > 0 -> U(FlipBit(C, Draw(r, k + 43, m.p.n)), AD, m.ab, g.t)
          [] f = 3 /\ m.ab > 0 -> U(C, FlipBit(AD, Draw(r, k + 43, m.ab)), m.ab, g.t)
          [] f = 4 /\ m.ab > 0 -> U(C, Cut(AD, 0, CeilDiv(m.ab - 1, 8)), m.ab - 1, g.t)
          [] f = 5 -> U(C, AppendBits(A, <<0, 1>>).d, m.ab + 1, g.t)
          [] OTHER -> U(C, AD, m.ab, g.t)
SeChoose(b, I, r, final) ==
    LET c == Draw(r, 1, 100)
    IN  Nm(IF I.ty = "none" THEN SInit(r, 10, ~final /\ Pct(r, 2, 8))
           ELSE IF I.dead THEN SInit(r, 10, ~final /\ Pct(r, 2, 20))
           ELSE IF c < 5 /\ ~final THEN SInit(r, 10, FALSE)
           ELSE IF c < 50 THEN SWrap(r, 10) ELSE SUnwrap(r, 10, I))
SeWild(b, I, r, final) == IF ~final /\ Pct(r, 4, 25) THEN Nm(SInit(r, 10, TRUE)) ELSE SeChoose(b, I, r, final)
SeApply(I, c) ==
    LET o == OpOf(c)
    IN  CASE o = "sane.init" -> SaCallInit(I, Kd, Data(c.k), c.kb, Data(c.d), c.b)
          [] o = "sanse.init" -> SsCallInit(I, Kd, Data(c.k), c.kb)
          [] o \in {"sane.wrap", "sanse.wrap"} -> CallWrap(I, BStr(Data(c.d), c.b), BStr(Data(c.a), c.ab))
          [] OTHER -> CallUnwrap(I, BStr(c.c, c.b), BStr(c.a, c.ab), c.t)
SeGInv(I) == SeInv(I)

(* ---- wide block ciphers ---- *)
(* lengths near those where the split changes *)
WBits(r, k) ==
    LET c == Draw(r, k, 10)  b == 8 * W  q == 1 + Draw(r, k + 1, MaxBlk)
        x == CASE c < 3 -> Draw(r, k + 2, 4 * W * 8)
               [] c = 3 -> Draw(r, k + 2, 70)
               [] c = 4 -> (2 * b) - 20 + Draw(r, k + 2, 24)
               [] c = 5 -> (b * q) - 20 + Draw(r, k + 2, 24)
               [] c = 6 -> b * q + Draw(r, k + 2, b)
               [] c = 7 -> 8 * Draw(r, k + 2, q * W)
               [] OTHER -> 8 * (PickLen(r, k + 2, W, W))
    IN  x
WbcChoose(b, I, r, final) ==
    LET c == Draw(r, 1, 100)
        n == WBits(r, 10)
        s == Dirt(r, 20, BStr(Data(BD(r, 21, n)), n))
        a == ABits(r, 30)
        w == BD(r, 45, a)
        f == Draw(r, 50, 16)
        ct == WbcFn(Kd, I.K, BStr(Data(w), a), WithZero(BStr(s, n)))
        cd == IF f < 3 THEN FlipBit(ct.d, Draw(r, 51, ct.n)) ELSE ct.d
        wf == IF f = 3 THEN [d |-> BD(r, 45, a + 1), n |-> a + 1] ELSE [d |-> w, n |-> a]
    IN  Nm(IF I.ty = "none" THEN Mask(r, 10, ~final /\ Pct(r, 2, 8))
           ELSE IF c < 5 THEN Mask(r, 10, FALSE)
           ELSE IF c < 12 THEN One(r, 10, I)
           ELSE IF c < 35 THEN [op |-> "wbc.e", d |-> s, b |-> n, w |-> w, wb |-> a]
           ELSE IF c < 58 THEN [op |-> "wbc.d", d |-> s, b |-> n, w |-> w, wb |-> a]
           ELSE IF c < 75 THEN [op |-> "wbcae.e", d |-> s, b |-> n, w |-> w, wb |-> a]
           ELSE [op |-> "wbcae.d", d |-> Dirt(r, 52, [d |-> cd, n |-> ct.n]), b |-> n, w |-> wf.d, wb |-> wf.n])
WbcApply(I, c) ==
    LET o == OpOf(c)  Wd == BStr(Data(c.w), c.wb)
    IN  CASE o = "mask" -> DkCallMask(I, Kd, Data(c.d), c.b)
          [] o = "one" -> DkCallOne(I, Data(c.d), c.b, c.m, c.ini, c.sh)
          [] o = "wbc.e" -> CallWbc(I, FALSE, BStr(c.d, c.b), Wd)
          [] o = "wbc.d" -> CallWbc(I, TRUE, BStr(c.d, c.b), Wd)
          [] o = "wbcae.e" -> CallWbcAeE(I, BStr(c.d, c.b), Wd)
          [] o = "wbcae.d" -> CallWbcAeD(I, BStr(c.d, c.b + Tred), Wd)
WbcGInv(I) == DkInv(I)
=============================================================================
