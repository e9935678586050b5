----------------------------- MODULE GenXoodyak ----------------------------
EXTENDS Xoodyak, ConPrim, GenLib, GenMachine
CONSTANTS Fam          \* "hash", "keyed"
XLen(r, k, I, blk) ==
    LET c == Draw(r, k, 12)
    IN  CASE c = 0 -> blk * (8 + Draw(r, k + 1, 40))
          [] c = 1 -> (blk * Draw(r, k + 1, 30)) + Draw(r, k + 2, blk)
          [] c = 2 -> (blk * (1 + Draw(r, k + 1, 4))) + PickSeq(r, k + 2, <<0, 1, blk - 1>>)
          [] OTHER -> PickLen(r, k + 1, blk, PickSeq(r, k + 5, <<blk, Rhash, Rkout, Rkin, blk>>))
KInit(r, k) ==
    LET m == 1 + Draw(r, k, 43)
        kl == PickSeq(r, k + 1, <<16, 16, 32, 1, m, m, 43>>)
        id == IF Pct(r, k + 2, 45) THEN 0 ELSE PickSeq(r, k + 3, <<MinOf(16, 43 - kl), 43 - kl, Draw(r, k + 4, 44 - kl)>>)
        c == IF Pct(r, k + 5, 60) THEN 0 ELSE PickSeq(r, k + 6, <<1, 8, 16, 4, 17, 45>>)
    IN  [op |-> "xk.init", k |-> PickData(r, k + 7, kl), id |-> PickData(r, k + 10, id), c |-> PickData(r, k + 13, c)]
HInit(r, k) == [op |-> "xk.init", k |-> PickData(r, k, 0), id |-> PickData(r, k + 2, IF Pct(r, k + 1, 80) THEN 0 ELSE 5), c |-> PickData(r, k + 3, 0)]
XkChoose(b, I, r, final) ==
    LET c == Draw(r, 1, 100)
    IN  IF I.ty = "none" \/ (c < 3 /\ ~final) THEN (IF Fam = "hash" THEN HInit(r, 10) ELSE KInit(r, 10))
        ELSE IF final THEN [op |-> "xk.squeeze", n |-> 1 + XLen(r, 10, I, Rs(I))]
        ELSE IF I.hash THEN (IF c < 60 THEN [op |-> "xk.absorb", d |-> PickData(r, 20, XLen(r, 10, I, Rhash))] ELSE [op |-> "xk.squeeze", n |-> XLen(r, 10, I, Rhash)])
        ELSE CASE c < 27 -> [op |-> "xk.absorb", d |-> PickData(r, 20, XLen(r, 10, I, Rkin))]
               [] c < 45 -> [op |-> "xk.enc", d |-> PickData(r, 20, XLen(r, 10, I, Rkout)), ip |-> Draw(r, 30, 2)]
               [] c < 64 -> [op |-> "xk.dec", d |-> PickData(r, 20, XLen(r, 10, I, Rkout)), ip |-> Draw(r, 30, 2)]
               [] c < 80 -> [op |-> "xk.squeeze", n |-> XLen(r, 10, I, Rkout)]
               [] c < 90 -> [op |-> "xk.key", n |-> XLen(r, 10, I, Rkout)]
               [] OTHER -> [op |-> "xk.ratchet"]
XkApply(I, c) ==
    CASE c.op = "xk.init" -> XkCallInit(I, Data(c.k), Data(c.id), Data(c.c))
      [] c.op = "xk.absorb" -> XkCallAbsorb(I, Data(c.d))
      [] c.op = "xk.enc" -> XkCallEnc(I, Data(c.d))
      [] c.op = "xk.dec" -> XkCallDec(I, Data(c.d))
      [] c.op = "xk.squeeze" -> XkCallSqueeze(I, c.n)
      [] c.op = "xk.key" -> XkCallKey(I, c.n)
      [] c.op = "xk.ratchet" -> XkCallRatchet(I)
XkGInv(I) == XkInv(I)
=============================================================================
