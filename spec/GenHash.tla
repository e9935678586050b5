------------------------------- MODULE GenHash -----------------------------
EXTENDS KeccakHash, ConPrim, GenLib, GenMachine
HashInit(r, k) ==
    LET c == Draw(r, k, 10)
        f == FipsF[Draw(r, k + 1, 6) + 1]
        rate == 8 * (1 + Draw(r, k + 2, 200))
    IN  IF c < 7 THEN [op |-> "kh.init", rate |-> 8 * f.rb, cap |-> 1600 - 8 * f.rb, fl |-> 8 * f.n, delim |-> f.d]
        ELSE IF c < 9 THEN [op |-> "kh.init", rate |-> rate, cap |-> 1600 - rate, fl |-> 8 * Draw(r, k + 3, 300), delim |-> 1 + Draw(r, k + 4, 255)]
        ELSE PickSeq(r, k + 5, <<[op |-> "kh.init", rate |-> 1088, cap |-> 512, fl |-> 256, delim |-> 0],
                                 [op |-> "kh.init", rate |-> 1088, cap |-> 504, fl |-> 256, delim |-> 6],
                                 [op |-> "kh.init", rate |-> 1084, cap |-> 516, fl |-> 256, delim |-> 6],
                                 [op |-> "kh.init", rate |-> 0, cap |-> 1600, fl |-> 256, delim |-> 6]>>)
HashUpd(r, k, I) ==
    LET n == 8 * PickLen(r, k, I.sp.rb - I.sp.ix, I.sp.rb) + (IF Pct(r, k + 5, 18) THEN 1 + Draw(r, k + 6, 7) ELSE 0)
    IN  [op |-> "kh.update", nbits |-> n, d |-> PickData(r, k + 7, CeilDiv(n, 8))]
HashSqz(r, k, I) ==
    [op |-> "kh.squeeze", nbits |-> IF Pct(r, k + 5, 8) THEN 1 + 8 * Draw(r, k + 6, 20) + Draw(r, k + 7, 7)
                                    ELSE 8 * PickLen(r, k, I.sp.rb - I.sp.ix, I.sp.rb)]
HashOne(r, k) ==
    LET f == Draw(r, k, 6) + 1
    IN  [op |-> "kh.one", f |-> f, d |-> PickData(r, k + 1, PickLen(r, k + 3, FipsF[f].rb, FipsF[f].rb)),
         n |-> IF FipsF[f].n = 0 THEN PickLen(r, k + 7, FipsF[f].rb, FipsF[f].rb) ELSE FipsF[f].n]
HashChoose(b, I, r, final) ==
    LET c == Draw(r, 1, 100)
    IN  IF I.ty = "none" THEN IF ~final /\ Pct(r, 2, 20) THEN HashOne(r, 60) ELSE HashInit(r, 10)
        ELSE IF final THEN IF I.sp.sq THEN [op |-> "kh.squeeze", nbits |-> 8 * (1 + Draw(r, 3, 400))] ELSE [op |-> "kh.final"]
        ELSE IF c < 6 THEN HashInit(r, 10)
        ELSE IF c < 16 THEN HashOne(r, 60)
        ELSE IF ~I.sp.sq THEN (IF I.n % 8 # 0 \/ c > 75 THEN [op |-> "kh.final"] ELSE HashUpd(r, 20, I))
        ELSE IF c < 80 THEN HashSqz(r, 40, I)
        ELSE IF c < 90 THEN [op |-> "kh.final"] ELSE HashUpd(r, 20, I)
BadInit(r, k) == PickSeq(r, k,
    <<[op |-> "kh.init", rate |-> 1088, cap |-> 512, fl |-> 256, delim |-> 0], [op |-> "kh.init", rate |-> 1088, cap |-> 504, fl |-> 256, delim |-> 6],
      [op |-> "kh.init", rate |-> 1084, cap |-> 516, fl |-> 256, delim |-> 6], [op |-> "kh.init", rate |-> 0, cap |-> 1600, fl |-> 256, delim |-> 6],
      [op |-> "kh.init", rate |-> 1608, cap |-> 0, fl |-> 256, delim |-> 6], [op |-> "kh.init", rate |-> 1344, cap |-> 264, fl |-> 0, delim |-> 31]>>)
HashWild(b, I, r, final) ==
    LET c == Draw(r, 1, 100)
    IN  IF final \/ c < 45 THEN HashChoose(b, I, r, final)
        ELSE IF I.ty = "none" \/ c < 57 THEN BadInit(r, 2)
        ELSE IF c < 74 /\ (I.sp.sq \/ I.n % 8 = 0) THEN HashUpd(r, 20, I)     \* otherwise not reported, by its documentation
        ELSE IF c < 80 THEN [op |-> "kh.final"]
        ELSE IF c < 90 /\ I.sp.sq THEN HashSqz(r, 40, I)
        ELSE [op |-> "kh.squeeze", nbits |-> 1 + (8 * Draw(r, 46, 200)) + Draw(r, 47, 7)]
HashApply(I, c) ==
    CASE c.op = "kh.init" -> KhCallInit(I, c.rate, c.cap, c.fl, c.delim)
      [] c.op = "kh.update" -> KhCallUpdate(I, Data(c.d), c.nbits)
      [] c.op = "kh.final" -> KhCallFinal(I)
      [] c.op = "kh.squeeze" -> KhCallSqueeze(I, c.nbits)
      [] c.op = "kh.one" -> ResO(I, 0, FipsFn(c.f, Data(c.d), c.n))
HashInv(I) == KhInv(I)
=============================================================================
