------------------------------- MODULE GenKT -------------------------------
EXTENDS KT, ConPrim, GenLib, GenMachine
CONSTANTS Big           \* largest number of chunks fed at once
WP == <<8, 4, 2>>
Sec(r, k) == IF Pct(r, k, 60) THEN 128 ELSE 256
KLen(r, k, qn) ==
    LET c == Draw(r, k, 20)
        rem == Chunk - qn
        q == Draw(r, k + 1, Big)
    IN  CASE c < 6 -> PickLen(r, k + 2, 100, 168)
          [] c < 8 -> rem
          [] c = 8 -> rem + 1
          [] c = 9 -> IF rem > 0 THEN rem - 1 ELSE 0
          [] c < 13 -> rem + (Chunk * q) + Draw(r, k + 2, 20)
          [] c = 13 -> rem + (Chunk * q)
          [] c = 14 -> rem + (Chunk * q) + Draw(r, k + 2, Chunk)
          [] c = 15 -> Chunk * PickSeq(r, k + 1, <<1, 2, 3>>)
          [] c = 16 -> Draw(r, k + 2, Chunk)
          [] c = 17 -> Chunk - 1 - Draw(r, k + 2, 3)
          [] OTHER -> Draw(r, k + 2, 3000)
KCust(r, k) == PickData(r, k, IF Pct(r, k + 2, 40) THEN 0 ELSE PickSeq(r, k + 3, <<1, 8, 32, 255, 256, 8189, 8190, 8191, 8192, 300, 100, 16384>>))
KInit(r, k, bad) == [op |-> "kt.init", sec |-> IF bad THEN PickSeq(r, k, <<0, 127, 129, 192, 255, 512>>) ELSE Sec(r, k),
                     fl |-> IF Pct(r, k + 1, 50) THEN 0 ELSE 1 + Draw(r, k + 2, 500)]
KOne(r, k) == [op |-> "kt.one", f |-> Draw(r, k, 2), sec |-> IF Pct(r, k + 1, 5) THEN 224 ELSE Sec(r, k + 2), d |-> PickData(r, k + 3, KLen(r, k + 5, 0)), c |-> KCust(r, k + 15),
               l |-> IF Pct(r, k + 20, 6) THEN 0 ELSE 1 + Draw(r, k + 21, 400)]
KtChoose(b, I, r, final) ==
    LET c == Draw(r, 1, 100)
    IN  IF I.ty = "none" THEN IF ~final /\ Pct(r, 2, 15) THEN KOne(r, 60) ELSE KInit(r, 10, ~final /\ Pct(r, 3, 10))
        ELSE IF final THEN (IF I.ph = "abs" THEN [op |-> "kt.final", c |-> KCust(r, 20)] ELSE [op |-> "kt.squeeze", n |-> Draw(r, 4, 400)])
        ELSE IF c < 4 THEN KInit(r, 10, FALSE)
        ELSE IF c < 6 THEN KInit(r, 10, TRUE)
        ELSE IF c < 10 THEN KOne(r, 60)
        ELSE IF I.ph = "abs" THEN (IF c < 80 THEN [op |-> "kt.update", d |-> PickData(r, 30, KLen(r, 33, I.qn))]
                                   ELSE IF c < 97 THEN [op |-> "kt.final", c |-> KCust(r, 20)] ELSE [op |-> "kt.squeeze", n |-> Draw(r, 4, 400)])
        ELSE IF c < 80 THEN [op |-> "kt.squeeze", n |-> PickLen(r, 40, I.f.rb - I.f.ix, I.f.rb)]
        ELSE IF c < 88 THEN [op |-> "kt.final", c |-> KCust(r, 20)] ELSE [op |-> "kt.update", d |-> PickData(r, 30, 100)]
KtWild(b, I, r, final) ==
    LET c == Draw(r, 1, 100)
    IN  IF final \/ c < 45 THEN KtChoose(b, I, r, final)
        ELSE IF I.ty = "none" \/ c < 57 THEN KInit(r, 10, TRUE)
        ELSE IF c < 66 THEN [KOne(r, 60) EXCEPT !.f = 0, !.sec = PickSeq(r, 2, <<0, 127, 129, 192, 255, 257, 512, 1344>>)]
        ELSE IF c < 78 THEN [op |-> "kt.update", d |-> PickData(r, 30, KLen(r, 33, I.qn))]
        ELSE IF c < 88 THEN [op |-> "kt.final", c |-> KCust(r, 20)]
        ELSE [op |-> "kt.squeeze", n |-> Draw(r, 4, 400)]
KtApply(I, c) ==
    CASE c.op = "kt.init" -> KtCallInit(I, c.sec, c.fl)
      [] c.op = "kt.update" -> KtCallUpdate(I, c.d, WP)
      [] c.op = "kt.final" -> KtCallFinal(I, c.c, WP)
      [] c.op = "kt.squeeze" -> KtCallSqueeze(I, c.n)
      [] c.op = "kt.one" -> KtCallOne(I, c.sec, c.d, c.c, c.l)
KtGInv(I) == KtInv(I)
=============================================================================
