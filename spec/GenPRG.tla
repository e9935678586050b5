------------------------------ MODULE GenPRG -------------------------------
EXTENDS PRG, ConPrim, GenLib, GenMachine
PrgInitC(r, k, bad) ==
    [op |-> "prg.init", cap |-> IF bad THEN PickSeq(r, k, <<1591, 1600, 1601, 100000>>)
        ELSE IF Pct(r, k, 50) THEN PickSeq(r, k + 1, <<254, 256, 0, 1, 2, 6, 7, 8, 1590, 1589, 799, 800, 801, 798, 793, 576, 510>>) ELSE Draw(r, k + 1, 1591)]
PrgChoose(b, I, r, final) ==
    LET c == Draw(r, 1, 100)
        rho == Rho(I.du.rate)
    IN  IF I.ty = "none" THEN PrgInitC(r, 30, ~final /\ Pct(r, 2, 15))
        ELSE IF final THEN [op |-> "prg.fetch", n |-> 1 + Draw(r, 3, 2 * rho)]
        ELSE IF c < 3 THEN PrgInitC(r, 30, FALSE)
        ELSE IF c < 5 THEN PrgInitC(r, 30, TRUE)
        ELSE IF c < 45 THEN [op |-> "prg.feed", d |-> PickData(r, 20, PickLen(r, 10, rho - I.du.ii, rho))]
        ELSE IF c < 85 THEN [op |-> "prg.fetch", n |-> PickLen(r, 10, IF I.du.oi > rho THEN 0 ELSE rho - I.du.oi, rho)]
        ELSE [op |-> "prg.forget"]
PrgWild(b, I, r, final) ==
    LET c == Draw(r, 1, 100)
    IN  IF final \/ c < 60 THEN PrgChoose(b, I, r, final)
        ELSE IF I.ty = "none" THEN PrgInitC(r, 30, Pct(r, 2, 50))
        ELSE IF c < 70 THEN PrgInitC(r, 30, TRUE)
        ELSE IF c < 76 THEN [op |-> "prg.init", cap |-> 801 + Draw(r, 3, 789)]        \* no forgetting at these
        ELSE [op |-> "prg.forget"]
PrgApply(I, c) ==
    CASE c.op = "prg.init" -> PrgCallInit(I, c.cap)
      [] c.op = "prg.feed" -> PrgCallFeed(I, Data(c.d))
      [] c.op = "prg.fetch" -> PrgCallFetch(I, c.n)
      [] c.op = "prg.forget" -> PrgCallForget(I)
PrgGInv(I) == PrgInv(I)
=============================================================================
