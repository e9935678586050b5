------------------------------- MODULE GenSP -------------------------------
(* Behaviours of cSHAKE, KMAC, TupleHash and ParallelHash objects and        *)
(* one-shot calls.  Fam: which of them.                                       *)
EXTENDS SP800185, ConPrim, GenLib, GenMachine
CONSTANTS MaxExp,             \* largest block size of ParallelHash, as a power of 2
          Raw                 \* TRUE: unused bits of bit strings are given as they come
CONSTANT Fam                  \* "cs", "km", "th" or "ph"
Rbs == <<168, 136>>
(* a bit string with its unused bits cleared, as bytes *)
BitStr(r, k, n) == LET d == Data([s |-> 2 + Draw(r, k, 60000), o |-> 0, n |-> CeilDiv(n, 8)]) IN IF Raw THEN d ELSE BitsMask(d, n)
PickBits(r, k, big) ==
    LET c == Draw(r, k, 10)
    IN  CASE c < 3 -> 0
          [] c = 3 -> 1 + Draw(r, k + 1, 7)
          [] c < 7 -> 8 * Draw(r, k + 1, 40)
          [] c = 7 -> 8 * (120 + Draw(r, k + 1, 60))
          [] c = 8 -> 8 * Draw(r, k + 1, big)
          [] OTHER -> Draw(r, k + 1, 8 * big)
PickName(r, k) == IF Pct(r, k, 40) THEN 0 ELSE IF Pct(r, k + 1, 8) THEN 1 + Draw(r, k + 2, 60) ELSE 8 * PickSeq(r, k + 2, <<1, 4, 8, 31, 32, 100, 131, 163, 300>>)
PickL(r, k) ==
    LET c == Draw(r, k, 10)
    IN  CASE c = 0 -> 1 + Draw(r, k + 1, 15)
          [] c < 4 -> 8 * PickSeq(r, k + 1, <<32, 64, 136, 168, 16>>)
          [] c = 4 -> 8 * (130 + Draw(r, k + 1, 60))
          [] c < 8 -> 8 * (1 + Draw(r, k + 1, 400))
          [] OTHER -> 1 + Draw(r, k + 1, 3000)
FixedL(r, k) == IF Pct(r, k, 45) THEN 0 ELSE PickL(r, k + 1)
(* the rest of the arguments of an initialization or a one-shot call          *)
Custom(r, k) == LET sn == PickBits(r, k, 400) IN [sn |-> sn, s |-> BitStr(r, k + 3, sn)]
Blk(r, k, bad) == IF bad THEN PickSeq(r, k, <<0, 1, 4, 7, 9, 12, 24, 100, 136, 168, 1000, 8193, 65537>>)
                  ELSE PickSeq(r, k, <<8, 8, 16, 32, 64, 128, 128, 256, 256, 512, 1024, 4096>>)
SpxInit(r, k, bad) ==
    LET a == [rb |-> PickSeq(r, k, Rbs), fl |-> FixedL(r, k + 1)] @@ Custom(r, k + 4)
        nb == IF bad THEN 1 + (8 * Draw(r, k + 9, 12)) + Draw(r, k + 10, 7) ELSE LET q == PickName(r, k + 9) IN q - (q % 8)
        kn == PickBits(r, k + 9, 400)
    IN  CASE Fam = "cs" -> [op |-> "cs.init", nb |-> nb, nm |-> BitStr(r, k + 14, nb)] @@ a
          [] Fam = "km" -> [op |-> "km.init", kn |-> kn, k |-> BitStr(r, k + 14, kn)] @@ a
          [] Fam = "th" -> [op |-> "th.init"] @@ a
          [] OTHER -> IF Pct(r, k + 15, 8) THEN [op |-> "ph.init", be |-> MaxExp - Draw(r, k + 16, 5)] @@ a
                      ELSE [op |-> "ph.init", blk |-> Blk(r, k + 15, bad)] @@ a
Elem(r, k) == LET n == PickSeq(r, k, <<0, 1, 2, 3, 7, 8, 31, 32, 100, 134, 165, 166, 168, 255, 256, 400>>) IN PickData(r, k + 1, n)
Elems(r, k) == [j \in 1..Draw(r, k, 4) |-> Elem(r, k + 3 * j)]
PhLen(r, k, I) ==
    LET c == Draw(r, k, 10) IN
    CASE I.blk > 100000 -> PickLen(r, k + 1, 136, 136)
      [] c < 4 -> PickLen(r, k + 1, I.blk - I.qn, I.blk)
      [] c < 7 -> (I.blk - I.qn) + (IF I.blk <= 512 THEN I.blk * Draw(r, k + 1, 20) ELSE I.blk * Draw(r, k + 1, 3)) + (IF Pct(r, k + 2, 50) THEN Draw(r, k + 3, I.blk) ELSE 0)
      [] c = 7 -> I.blk * PickSeq(r, k + 1, <<2, 4, 8>>)
      [] OTHER -> Draw(r, k + 1, 17)
SpxUpd(r, k, I, Cs) ==
    LET bits == IF Pct(r, k, 18) THEN 1 + Draw(r, k + 1, 7) ELSE 0
        m == PickLen(r, k + 2, Cs.sp.rb - Cs.sp.ix, Cs.sp.rb)
        n == IF Fam = "ph" THEN 8 * PhLen(r, k + 20, I) + (IF Pct(r, k + 3, 6) THEN bits ELSE 0) ELSE 8 * m + bits
    IN  IF Fam = "th" THEN [op |-> "th.update", t |-> Elems(r, k + 3), bad |-> IF Pct(r, k + 2, 8) THEN 1 + Draw(r, k, 7) ELSE 0]
        ELSE [op |-> Fam \o ".update", n |-> n, d |-> PickData(r, k + 7, CeilDiv(n, 8))]
SpxOne(r, k) ==
    LET j == SpxInit(r, k, Pct(r, k + 40, 12))
        i == IF "be" \in DOMAIN j THEN [blk |-> 8] @@ [f \in DOMAIN j \ {"be"} |-> j[f]] ELSE j
        n == IF Fam = "ph" THEN 8 * MinOf(PickLen(r, k + 43, i.blk + 1, i.blk + 1), 3000) ELSE 8 * PickLen(r, k + 43, i.rb, i.rb) + (IF Pct(r, k + 50, 20) THEN 1 + Draw(r, k + 51, 7) ELSE 0)
        b == [l |-> IF Pct(r, k + 52, 8) THEN 0 ELSE PickL(r, k + 53)] @@
             (IF Fam = "th" THEN [t |-> Elems(r, k + 56), bad |-> IF Pct(r, k + 42, 8) THEN 3 ELSE 0] ELSE [n |-> n, d |-> PickData(r, k + 56, CeilDiv(n, 8))])
    IN  [b @@ i EXCEPT !.op = Fam \o ".one"]
SpxChoose(b, I, r, final) ==
    LET c == Draw(r, 1, 100)
        Cs == IF Fam = "cs" THEN I ELSE I.cs
    IN  IF I.ty = "none" THEN IF ~final /\ Pct(r, 2, 20) THEN SpxOne(r, 100) ELSE SpxInit(r, 30, ~final /\ Pct(r, 3, 10))
        ELSE IF final THEN (IF Cs.ph = "abs" THEN [op |-> Fam \o ".final"] ELSE [op |-> Fam \o ".squeeze", l |-> PickL(r, 40)])
        ELSE IF c < 5 THEN SpxInit(r, 30, FALSE)
        ELSE IF c < 8 THEN SpxInit(r, 30, TRUE)
        ELSE IF c < 16 THEN SpxOne(r, 100)
        ELSE IF Cs.ph = "abs" THEN (IF c < 72 THEN SpxUpd(r, 60, I, Cs) ELSE IF c < 95 THEN [op |-> Fam \o ".final"] ELSE [op |-> Fam \o ".squeeze", l |-> PickL(r, 40)])
        ELSE IF c < 80 THEN [op |-> Fam \o ".squeeze", l |-> IF Pct(r, 45, 75) THEN 8 * PickLen(r, 46, Cs.sp.rb - Cs.sp.ix, Cs.sp.rb) ELSE PickL(r, 40)]
        ELSE IF c < 90 THEN [op |-> Fam \o ".final"] ELSE SpxUpd(r, 60, I, Cs)
SpxWild(b, I, r, final) ==
    LET c == Draw(r, 1, 100)
        Cs == IF Fam = "cs" THEN I ELSE I.cs
        u == SpxUpd(r, 60, I, Cs)
        o == SpxOne(r, 100)
    IN  IF final \/ c < 40 THEN SpxChoose(b, I, r, final)
        ELSE IF I.ty = "none" \/ c < 50 THEN SpxInit(r, 30, TRUE)
        ELSE IF c < 72 THEN (IF Fam = "th" THEN [u EXCEPT !.bad = Draw(r, 3, 8)]
                             ELSE IF Pct(r, 3, 60) /\ u.n >= 8 THEN [u EXCEPT !.n = u.n - 1 - Draw(r, 4, 7)] ELSE u)
        ELSE IF c < 80 THEN [op |-> Fam \o ".final"]
        ELSE IF c < 92 THEN [op |-> Fam \o ".squeeze", l |-> PickL(r, 40)]
        ELSE IF Fam = "th" THEN [o EXCEPT !.bad = 1 + Draw(r, 3, 7)] ELSE o
Dl(t) == [j \in 1..Len(t) |-> Data(t[j])]
(* a name with a partial byte is refused: its content does not matter         *)
SpxApply(I, c) ==
    CASE c.op = "cs.init" -> CsCallInit(I, c.rb, c.fl, c.nm, c.nb, c.s, c.sn)
      [] c.op = "cs.update" -> CsCallUpdate(I, Data(c.d), c.n)
      [] c.op = "cs.final" -> CsCallFinal(I)
      [] c.op = "cs.squeeze" -> CsCallSqueeze(I, c.l)
      [] c.op = "cs.one" -> CsCallOne(I, c.rb, Data(c.d), c.n, c.l, c.nm, c.nb, c.s, c.sn)
      [] c.op = "km.init" -> KmCallInit(I, c.rb, c.k, c.kn, c.fl, c.s, c.sn)
      [] c.op = "km.update" -> KmCallUpdate(I, Data(c.d), c.n)
      [] c.op = "km.final" -> KmCallFinal(I)
      [] c.op = "km.one" -> KmCallOne(I, c.rb, c.k, c.kn, Data(c.d), c.n, c.l, c.s, c.sn)
      [] c.op = "th.init" -> ThCallInit(I, c.rb, c.fl, c.s, c.sn)
      [] c.op = "th.update" -> ThCallUpdate(I, Dl(c.t), c.bad # 0)
      [] c.op = "th.final" -> ThCallFinal(I)
      [] c.op = "th.one" -> ThCallOne(I, c.rb, Dl(c.t), c.bad # 0, c.l, c.s, c.sn)
      [] c.op = "ph.init" /\ "be" \in DOMAIN c -> PhCallInitE(I, c.rb, c.be, c.fl, c.s, c.sn, <<8, 4, 2>>)
      [] c.op = "ph.init" -> PhCallInit(I, c.rb, c.blk, c.fl, c.s, c.sn, <<8, 4, 2>>)
      [] c.op = "ph.update" -> PhCallUpdate(I, Data(c.d), c.n)
      [] c.op = "ph.final" -> PhCallFinal(I)
      [] c.op = "ph.one" -> PhCallOne(I, c.rb, Data(c.d), c.n, c.blk, c.l, c.s, c.sn)
      [] OTHER -> CsCallSqueezeIn(I, c.l)
(* only bit strings with a partial last byte, and whatever is in its unused bits *)
RawChoose(b, I, r, final) ==
    LET sn == 1 + Draw(r, 2, 7) + 8 * Draw(r, 3, 20)
        kn == 1 + Draw(r, 4, 7) + 8 * Draw(r, 5, 20)
        c == [rb |-> PickSeq(r, 6, Rbs), sn |-> sn, s |-> BitStr(r, 7, sn), l |-> 256]
        d == [n |-> 80, d |-> PickData(r, 11, 10)]
    IN  CASE Fam = "cs" -> [op |-> "cs.one", nb |-> 0, nm |-> <<>>] @@ c @@ d
          [] Fam = "km" -> [op |-> "km.one", kn |-> kn, k |-> BitStr(r, 10, kn)] @@ c @@ d
          [] Fam = "th" -> [op |-> "th.one", t |-> Elems(r, 20), bad |-> 0] @@ c
          [] OTHER -> [op |-> "ph.one", blk |-> 8] @@ c @@ d
SpxInv(I) == CASE I.ty = "cs" -> CsInv(I) [] I.ty = "km" -> KmInv(I) [] I.ty = "th" -> ThInv(I) [] OTHER -> PhInv(I)
=============================================================================
