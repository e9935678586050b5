----------------------------- MODULE GenDuplex -----------------------------
EXTENDS Duplex, ConPrim, GenLib, GenMachine
DuRate(r, k) ==
    LET c == Draw(r, k, 10)
    IN  IF c < 3 THEN 3 + Draw(r, k + 1, 1598) ELSE IF c < 5 THEN 8 * (1 + Draw(r, k + 1, 200))
        ELSE IF c < 8 THEN 8 * Draw(r, k + 1, 30) + 8 + PickSeq(r, k + 2, <<1, 2, 3, 4, 7>>)
        ELSE PickSeq(r, k + 1, <<3, 1600, 1599, 1026, 1027, 1154, 1344, 1346, 1595, 10, 11, 17, 1593, 1594>>)
DuInitC(r, k, bad) ==
    LET rate == IF bad THEN PickSeq(r, k + 5, <<0, 1, 2, 1601, 1344, 1026>>) ELSE DuRate(r, k)
    IN  [op |-> "du.init", rate |-> rate, cap |-> IF rate > 1600 THEN 0 ELSE IF bad /\ rate > 2 THEN 1601 - rate ELSE 1600 - rate]
(* lengths around the room left *)
Around(r, k, room) == LET c == Draw(r, k, 12) IN
    CASE c = 0 -> room + 1 [] c = 1 -> room [] c = 2 -> IF room > 0 THEN room - 1 ELSE 0 [] c = 3 -> 0 [] c = 4 -> 1
      [] c = 5 -> PickSeq(r, k + 1, <<200, 201, 256, 1000>>) [] OTHER -> Draw(r, k + 1, room + 1)
DuDelim(r, k, bits) ==   \* around the number of bits that fit
    LET b == MinOf(bits, 7) c == Draw(r, k, 8)
    IN  IF c = 0 THEN 0 ELSE IF c = 1 THEN 1 ELSE IF c < 4 THEN 2^b ELSE IF c < 5 THEN MinOf(255, 2^(b + 1))
        ELSE IF c < 6 THEN 2^(b + 1) - 1 ELSE 1 + Draw(r, k + 1, 255)
DuChoose(b, I, r, final) ==
    LET c == Draw(r, 1, 100)
        room == (RhoMax(I.rate) \div 8) - I.ii
        oroom == RateBytes(I.rate) - I.oi
        n == Around(r, 10, room)
        m == Around(r, 15, oroom)
        left == RhoMax(I.rate) - 8 * (I.ii + n)
    IN  IF I.ty = "none" THEN DuInitC(r, 30, ~final /\ Pct(r, 2, 15))
        ELSE IF final THEN [op |-> "du.duplexing", d |-> [s |-> 0, o |-> 0, n |-> 0], n |-> RateBytes(I.rate), delim |-> 1]
        ELSE IF c < 3 THEN DuInitC(r, 30, FALSE)
        ELSE IF c < 5 THEN DuInitC(r, 30, TRUE)
        ELSE IF c < 18 THEN [op |-> "du.feed", d |-> PickData(r, 20, n)]
        ELSE IF c < 25 THEN [op |-> "du.feedz", n |-> n]
        ELSE IF c < 36 THEN [op |-> "du.over", d |-> PickData(r, 20, n)]
        ELSE IF c < 42 THEN [op |-> "du.overz", n |-> n]
        ELSE IF c < 52 THEN [op |-> "du.get", n |-> m]
        ELSE IF c < 62 THEN [op |-> "du.getadd", d |-> PickData(r, 20, m), inpl |-> Draw(r, 23, 2)]
        ELSE [op |-> "du.duplexing", d |-> PickData(r, 20, n), n |-> Around(r, 24, RateBytes(I.rate)),
              delim |-> DuDelim(r, 27, IF left < 0 THEN 0 ELSE left)]
DuWild(b, I, r, final) ==
    LET c == Draw(r, 1, 100)
        room == (RhoMax(I.rate) \div 8) - I.ii
        oroom == RateBytes(I.rate) - I.oi
        over == room + 1 + (IF Pct(r, 3, 60) THEN 0 ELSE Draw(r, 4, 300))
        oover == oroom + 1 + (IF Pct(r, 5, 60) THEN 0 ELSE Draw(r, 6, 300))
        n == Draw(r, 7, room + 1)
        left == RhoMax(I.rate) - 8 * (I.ii + n)
    IN  IF final \/ c < 45 THEN DuChoose(b, I, r, final)
        ELSE IF I.ty = "none" \/ c < 52 THEN DuInitC(r, 30, TRUE)
        ELSE IF c < 57 THEN [op |-> "du.feed", d |-> PickData(r, 20, over)]
        ELSE IF c < 62 THEN [op |-> "du.feedz", n |-> over]
        ELSE IF c < 67 THEN [op |-> "du.over", d |-> PickData(r, 20, over)]
        ELSE IF c < 72 THEN [op |-> "du.overz", n |-> PickSeq(r, 8, <<over, n>>)]
        ELSE IF c < 77 THEN [op |-> "du.get", n |-> oover]
        ELSE IF c < 82 THEN [op |-> "du.getadd", d |-> PickData(r, 20, oover), inpl |-> Draw(r, 23, 2)]
        ELSE LET f == Draw(r, 9, 4) IN
             [op |-> "du.duplexing", d |-> PickData(r, 20, IF f = 0 THEN over ELSE IF f = 3 THEN room ELSE n),
              n |-> IF f = 1 THEN RateBytes(I.rate) + 1 + Draw(r, 11, 100) ELSE Draw(r, 11, RateBytes(I.rate) + 1),
              delim |-> IF f = 2 THEN 0 ELSE IF f = 3 THEN PickSeq(r, 12, <<255, 128, 64, 32, 16, 8, 4, 2>>) ELSE DuDelim(r, 27, IF left < 0 THEN 0 ELSE left)]
DuApply(I, c) ==
    CASE c.op = "du.init" -> DuCallInit(I, c.rate, c.cap)
      [] c.op = "du.feed" -> DuCallFeed(I, Data(c.d))
      [] c.op = "du.feedz" -> DuCallFeedZeroes(I, c.n)
      [] c.op = "du.over" -> DuCallOver(I, Data(c.d))
      [] c.op = "du.overz" -> DuCallOverZeroes(I, c.n)
      [] c.op = "du.get" -> DuCallGet(I, c.n)
      [] c.op = "du.getadd" -> DuCallGetAdd(I, Data(c.d))
      [] c.op = "du.duplexing" -> DuCallDuplexing(I, Data(c.d), c.n, c.delim)
DuGInv(I) == DuInv(I)
=============================================================================
