------------------------------ MODULE GenTurbo -----------------------------
(* lib/high/TurboSHAKE: the sponge with 12 rounds and capacity up to 512 bits *)
EXTENDS Sponge, ConPrim, GenLib, GenMachine
TsCapOK(cap) == cap <= 512 /\ cap % 8 = 0
TsCallInit(I, cap) == IF TsCapOK(cap) THEN SpCallInit(I, 12, 1600 - cap, cap) ELSE Res(I, 1)
TsCallOne(I, cap, x, dom, n) ==
    IF TsCapOK(cap) /\ dom # 0 THEN ResO(I, 0, SpongeFn(12, (1600 - cap) \div 8, x, dom, n)) ELSE ResO(I, 1, <<>>)
DomPick(r, k) == IF Pct(r, k, 6) THEN 0 ELSE IF Pct(r, k + 1, 60) THEN PickSeq(r, k + 2, <<1, 6, 7, 11, 31, 127, 128, 129, 192, 255>>) ELSE 1 + Draw(r, k + 3, 255)
CapPick(r, k) == IF Pct(r, k, 8) THEN PickSeq(r, k + 1, <<513, 520, 255, 4, 1600, 1024, 257, 1344>>)
                 ELSE IF Pct(r, k + 2, 60) THEN PickSeq(r, k + 3, <<256, 512, 0, 8, 448, 504>>) ELSE 8 * Draw(r, k + 4, 65)
TsChoose(b, I, r, final) ==
    LET rem == I.rb - I.ix
        c == Draw(r, 1, 100)
        AbsC == [op |-> "ts.absorb", d |-> PickData(r, 20, PickLen(r, 10, rem, I.rb))]
        LastC == [op |-> "ts.last", delim |-> DomPick(r, 31)]
        SqzC == [op |-> "ts.squeeze", n |-> PickLen(r, 40, rem, I.rb)]
        InitC == [op |-> "ts.init", cap |-> CapPick(r, 50)]
        OneC == [op |-> "ts.one", cap |-> CapPick(r, 70), d |-> PickData(r, 20, PickLen(r, 60, 168, 136)),
                 delim |-> DomPick(r, 65), n |-> PickLen(r, 80, 168, 136)]
    IN  IF I.ty = "none" THEN InitC
        ELSE IF final THEN [op |-> "ts.squeeze", n |-> 1 + Draw(r, 41, 2 * I.rb)]
        ELSE IF c < 6 THEN OneC
        ELSE IF c < 10 THEN InitC
        ELSE IF ~I.sq THEN (IF c < 72 THEN AbsC ELSE IF c < 90 THEN LastC ELSE SqzC)
        ELSE IF c < 84 THEN SqzC ELSE IF c < 92 THEN LastC ELSE AbsC
TsWild(b, I, r, final) ==
    LET c == Draw(r, 1, 100)
        bad == PickSeq(r, 2, <<513, 520, 255, 4, 1600, 1024, 257, 1344, 7, 519, 100000>>)
    IN  IF final \/ c < 40 THEN TsChoose(b, I, r, final)
        ELSE IF I.ty = "none" \/ c < 55 THEN [op |-> "ts.init", cap |-> bad]
        ELSE IF c < 65 THEN [op |-> "ts.last", delim |-> 0]
        ELSE IF c < 73 THEN [op |-> "ts.absorb", d |-> PickData(r, 20, PickLen(r, 10, I.rb - I.ix, I.rb))]
        ELSE IF c < 80 THEN [op |-> "ts.last", delim |-> DomPick(r, 31)]
        ELSE IF c < 86 THEN [op |-> "ts.squeeze", n |-> PickLen(r, 40, I.rb - I.ix, I.rb)]
        ELSE [op |-> "ts.one", cap |-> IF c < 93 THEN bad ELSE 256, d |-> PickData(r, 20, Draw(r, 63, 300)), delim |-> IF c < 93 THEN 31 ELSE 0, n |-> Draw(r, 64, 300)]
TsApply(I, c) ==
    CASE c.op = "ts.init" -> TsCallInit(I, c.cap)
      [] c.op = "ts.absorb" -> SpCallAbsorb(I, Data(c.d))
      [] c.op = "ts.last" -> SpCallLast(I, c.delim)
      [] c.op = "ts.squeeze" -> SpCallSqueeze(I, c.n)
      [] c.op = "ts.one" -> TsCallOne(I, c.cap, Data(c.d), c.delim, c.n)
TsInv(I) == SpInv(I)
=============================================================================
