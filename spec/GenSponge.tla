------------------------------ MODULE GenSponge ----------------------------
EXTENDS Sponge, ConPrim, GenLib, GenMachine
DelimPick(r, k) == IF Pct(r, k, 60) THEN PickSeq(r, k + 1, <<1, 2, 6, 31, 128, 129, 255, 64>>) ELSE 1 + Draw(r, k + 1, 255)
RatePick(r, k) == IF Pct(r, k, 50) THEN PickSeq(r, k + 1, <<1344, 1088, 576, 1152, 832, 1600, 8, 1592, 64, 1024, 1536>>)
                  ELSE 8 * (1 + Draw(r, k + 1, 200))
InitCall(r, k, bad) ==
    LET rate == IF bad THEN PickSeq(r, k, <<0, 1601, 1087, 4, 1608, 1345, 1600, 1344>>) ELSE RatePick(r, k)
    IN  [op |-> "sp.init", rate |-> rate,
         cap |-> IF rate > 1600 THEN PickSeq(r, k + 3, <<0, 8, 1600>>)
                 ELSE IF bad /\ rate \in {1600, 1344} THEN 1608 - rate ELSE 1600 - rate]
SpChoose(b, I, r, final) ==
    LET rem == I.rb - I.ix
        c == Draw(r, 1, 100)
        AbsC == [op |-> "sp.absorb", d |-> PickData(r, 20, PickLen(r, 10, rem, I.rb))]
        LastC == [op |-> "sp.last", delim |-> IF Pct(r, 30, 6) THEN 0 ELSE DelimPick(r, 31)]
        SqzC == [op |-> "sp.squeeze", n |-> PickLen(r, 40, rem, I.rb)]
        rate == RatePick(r, 50)
        OneC == [op |-> "sp.one", rate |-> IF Pct(r, 53, 6) THEN rate + 4 ELSE rate, cap |-> 1600 - rate,
                 d |-> PickData(r, 20, PickLen(r, 60, rate \div 8, rate \div 8)),
                 delim |-> IF Pct(r, 65, 5) THEN 0 ELSE DelimPick(r, 66), n |-> PickLen(r, 70, rate \div 8, rate \div 8)]
    IN  IF I.ty = "none" THEN InitCall(r, 5, ~final /\ Pct(r, 4, 10))
        ELSE IF final THEN [op |-> "sp.squeeze", n |-> 1 + Draw(r, 41, 2 * I.rb)]
        ELSE IF c < 4 THEN OneC
        ELSE IF c < 7 THEN InitCall(r, 5, FALSE)
        ELSE IF c < 9 THEN InitCall(r, 5, TRUE)
        ELSE IF ~I.sq THEN (IF c < 72 THEN AbsC ELSE IF c < 90 THEN LastC ELSE SqzC)
        ELSE IF c < 84 THEN SqzC ELSE IF c < 92 THEN LastC ELSE AbsC
(* any call in any phase, most of them with parameters that are refused        *)
SpWild(b, I, r, final) ==
    LET c == Draw(r, 1, 100)
        rate == RatePick(r, 50)
    IN  IF final \/ c < 40 THEN SpChoose(b, I, r, final)
        ELSE IF I.ty = "none" THEN InitCall(r, 5, TRUE)
        ELSE IF c < 52 THEN InitCall(r, 5, TRUE)
        ELSE IF c < 60 THEN [op |-> "sp.last", delim |-> 0]
        ELSE IF c < 70 THEN [op |-> "sp.absorb", d |-> PickData(r, 20, PickLen(r, 10, I.rb - I.ix, I.rb))]
        ELSE IF c < 78 THEN [op |-> "sp.last", delim |-> DelimPick(r, 31)]
        ELSE IF c < 86 THEN [op |-> "sp.squeeze", n |-> PickLen(r, 40, I.rb - I.ix, I.rb)]
        ELSE LET f == Draw(r, 61, 4) IN
             [op |-> "sp.one", rate |-> IF f = 0 THEN 1608 ELSE IF f = 1 THEN rate + 1 + Draw(r, 62, 7) ELSE IF f = 2 THEN 0 ELSE rate,
              cap |-> IF f = 0 THEN 0 ELSE IF f = 1 THEN 1600 - rate ELSE IF f = 2 THEN 1600 ELSE 1600 - rate,
              d |-> PickData(r, 20, Draw(r, 63, 300)), delim |-> IF f = 3 THEN 0 ELSE 1, n |-> Draw(r, 64, 300)]
SpApply(I, c) ==
    CASE c.op = "sp.init" -> SpCallInit(I, 24, c.rate, c.cap)
      [] c.op = "sp.absorb" -> SpCallAbsorb(I, Data(c.d))
      [] c.op = "sp.last" -> SpCallLast(I, c.delim)
      [] c.op = "sp.squeeze" -> SpCallSqueeze(I, c.n)
      [] c.op = "sp.one" -> SpCallOneShot(I, 24, c.rate, c.cap, Data(c.d), c.delim, c.n)
SpGInv(I) == SpInv(I)
=============================================================================
