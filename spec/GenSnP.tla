------------------------------- MODULE GenSnP ------------------------------
EXTENDS SnP, ConPrim, GenLib, GenMachine
CONSTANTS Kind, Par,       \* kind of permutation and degree of parallelism
          Rounds,          \* the round numbers to use
          FastRounds
R_K == <<4, 6, 12, 24>>
R_X == <<6, 12>>
R_1to24 == [i \in 1..24 |-> i]
R_1to12 == [i \in 1..12 |-> i]
F_24 == <<24>>
F_12 == <<12>>
F_both == <<24, 12>>
CLaneB(k) == IF k = "K" THEN 8 ELSE 4
W == CWidth(Kind)
NL == W \div CLaneB(Kind)
InitC == [op |-> "snp.init", k |-> Kind, p |-> Par]
(* any data, including sparse ones *)
BlockData(r, k, n) ==
    LET c == Draw(r, k, 8) IN IF c = 0 THEN [s |-> 0, o |-> 0, n |-> n] ELSE IF c = 1 THEN [s |-> 1, o |-> 0, n |-> n]
    ELSE [s |-> 2 + Draw(r, k + 1, 60000), o |-> 0, n |-> n]
Inst(r, k) == 1 + Draw(r, k, Par)
FullOut(r, k) == [op |-> "snp.ext", j |-> Inst(r, k), off |-> 0, n |-> W]
OffPick(r, k) == IF Pct(r, k, 40) THEN CLaneB(Kind) * Draw(r, k + 1, NL) ELSE Draw(r, k + 1, W)
LenPick(r, k, off) == IF Pct(r, k, 25) THEN PickSeq(r, k + 1, <<0, W - off, MinOf(1, W - off), MinOf(CLaneB(Kind), W - off), MinOf(2 * CLaneB(Kind), W - off)>>)
                      ELSE IF Pct(r, k + 2, 40) THEN CLaneB(Kind) * Draw(r, k + 3, ((W - off) \div CLaneB(Kind)) + 1)
                      ELSE Draw(r, k + 3, W - off + 1)
LaneOff(r, k, lc) == PickSeq(r, k, <<lc, lc + 1, lc + Draw(r, k + 1, 9), NL, 32>>)
BulkOK == Par > 1

(* random mixes of everything *)
MixChoose(b, I, r, final) ==
    LET c == Draw(r, 1, 100)
        off == OffPick(r, 2)
        n == LenPick(r, 4, off)
        lc == Draw(r, 10, NL + 1)
        lo0 == LaneOff(r, 11, lc)
        lo == IF lo0 < lc THEN lc ELSE lo0
        bytes == CLaneB(Kind) * ((Par - 1) * lo + lc)
    IN  IF I.ty = "none" THEN InitC
        ELSE IF final THEN FullOut(r, 20)
        ELSE IF c < 2 THEN InitC
        ELSE IF c < 10 THEN [op |-> "snp.addb", j |-> Inst(r, 21), b |-> Draw(r, 22, 256), off |-> off]
        ELSE IF c < 24 THEN [op |-> "snp.add", j |-> Inst(r, 21), d |-> PickData(r, 23, n), off |-> off]
        ELSE IF c < 38 THEN [op |-> "snp.over", j |-> Inst(r, 21), d |-> PickData(r, 23, n), off |-> off]
        ELSE IF c < 43 THEN [op |-> "snp.zero", j |-> Inst(r, 21), n |-> Draw(r, 24, W + 1)]
        ELSE IF c < 53 THEN [op |-> "snp.perm", nr |-> PickSeq(r, 25, Rounds)]
        ELSE IF c < 61 \/ (c >= 72 /\ ~BulkOK) THEN [op |-> "snp.ext", j |-> Inst(r, 21), off |-> off, n |-> n]
        ELSE IF c < 72 THEN [op |-> "snp.extadd", j |-> Inst(r, 21), d |-> PickData(r, 23, n), off |-> off, inpl |-> Draw(r, 26, 2)]
        ELSE IF c < 79 THEN [op |-> "snp.addl", d |-> PickData(r, 23, bytes), lc |-> lc, lo |-> lo]
        ELSE IF c < 86 THEN [op |-> "snp.overl", d |-> PickData(r, 23, bytes), lc |-> lc, lo |-> lo]
        ELSE IF c < 93 THEN [op |-> "snp.extl", lc |-> lc, lo |-> lo]
        ELSE [op |-> "snp.extaddl", d |-> PickData(r, 23, bytes), lc |-> lc, lo |-> lo]

(* every (offset, length) for every byte operation: behaviour b has offset    *)
(* b-1; call t of it length t div 4 and operation t mod 4                     *)
AllChoose(b, I, r, final) ==
    LET off == (b - 1) % W
        t == I.c - 1
        n == t \div 5
        j == ((b - 1) \div W) + 1
        d == [s |-> 2 + ((b * 31 + t) % 9973), o |-> 0, n |-> n]
    IN  IF I.ty = "none" THEN InitC
        ELSE IF off + n > W THEN FullOut(r, 20)
        ELSE IF t % 5 = 0 THEN [op |-> "snp.add", j |-> j, d |-> d, off |-> off]
        ELSE IF t % 5 = 1 THEN [op |-> "snp.ext", j |-> j, off |-> off, n |-> n]
        ELSE IF t % 5 = 2 THEN [op |-> "snp.over", j |-> j, d |-> d, off |-> off]
        ELSE IF t % 5 = 3 THEN [op |-> "snp.extadd", j |-> j, d |-> d, off |-> off, inpl |-> n % 2]
        ELSE IF off % 8 = 3 /\ n % 16 = 0 THEN [op |-> "snp.zero", j |-> j, n |-> n]
        ELSE IF n % 8 = 5 THEN FullOut(r, 20)
        ELSE [op |-> "snp.addb", j |-> j, b |-> (n * 37 + off) % 256, off |-> (off + n) % W]

(* permutations of sparse, constant and arbitrary states, all round numbers;  *)
(* every instance of the group has its own state                              *)
PermChoose(b, I, r, final) ==
    LET t == I.c - 1
        bit == (b - 1) % (8 * W)
    IN  IF I.ty = "none" THEN InitC
        ELSE IF t < Par THEN
            (IF b <= 8 * W THEN (IF t = (b % Par) THEN [op |-> "snp.addb", j |-> t + 1, b |-> 2^(bit % 8), off |-> bit \div 8]
                                 ELSE [op |-> "snp.over", j |-> t + 1, d |-> BlockData(r, 31, W), off |-> 0])
             ELSE [op |-> "snp.over", j |-> t + 1, d |-> BlockData(r, 31, W), off |-> 0])
        ELSE IF (t - Par) % (Par + 1) = 0 THEN
            [op |-> "snp.perm", nr |-> Rounds[((b + (t - Par) \div (Par + 1)) % Len(Rounds)) + 1]]
        ELSE [op |-> "snp.ext", j |-> (t - Par) % (Par + 1), off |-> 0, n |-> W]

(* fast loops *)
FastChoose(b, I, r, final) ==
    LET t == I.c - 1
        lc == IF Par = 1 THEN 1 + ((b - 1) % NL) ELSE IF Pct(r, 40, 45) THEN PickSeq(r, 41, <<17, 21>>) ELSE 1 + ((b - 1) % (NL - 1))
        lo == IF Par = 1 THEN lc ELSE PickSeq(r, 42, <<lc, lc + 1 + Draw(r, 43, 30), 128, 64, 0, lc - 1, 3 * lc, lc * (1 + Draw(r, 46, 5))>>)
        span == (Par - 1) * lo + lc
        ls == IF Par = 1 THEN lc ELSE PickSeq(r, 44, <<lc, lc, MinOf(span, Par * lc), 1 + Draw(r, 45, span)>>)
        cnt == Draw(r, 47, IF Par = 1 THEN 7 ELSE 5)
        bytes0 == CLaneB(Kind) * (IF cnt = 0 THEN 0 ELSE span + (cnt - 1) * ls)
        extra == PickSeq(r, 48, <<0, 0, 1, 7, 8, CLaneB(Kind) * ls - 1, Draw(r, 49, CLaneB(Kind) * ls)>>)
        n == IF Pct(r, 50, 15) /\ bytes0 > 0 THEN bytes0 - 1 ELSE bytes0 + extra
    IN  IF I.ty = "none" THEN InitC
        ELSE IF t < Par THEN [op |-> "snp.over", j |-> t + 1, d |-> BlockData(r, 31, W), off |-> 0]
        ELSE IF (t - Par) % (Par + 1) = 0 THEN
            [op |-> "snp.fast", nr |-> PickSeq(r, 51, FastRounds), d |-> PickData(r, 52, n), lc |-> lc, lo |-> lo, ls |-> ls]
        ELSE [op |-> "snp.ext", j |-> (t - Par) % (Par + 1), off |-> 0, n |-> W]

SnpApply(I, c) ==
    CASE c.op = "snp.init" -> SnpInit(I, c.k, c.p)
      [] c.op = "snp.addb" -> SnpAddByte(I, c.j, c.b, c.off)
      [] c.op = "snp.add" -> SnpAdd(I, c.j, Data(c.d), c.off)
      [] c.op = "snp.over" -> SnpOver(I, c.j, Data(c.d), c.off)
      [] c.op = "snp.zero" -> SnpZero(I, c.j, c.n)
      [] c.op = "snp.perm" -> SnpPerm(I, c.nr)
      [] c.op = "snp.ext" -> SnpExtract(I, c.j, c.off, c.n)
      [] c.op = "snp.extadd" -> SnpExtAdd(I, c.j, Data(c.d), c.off)
      [] c.op = "snp.addl" -> SnpAddLanes(I, Data(c.d), c.lc, c.lo)
      [] c.op = "snp.overl" -> SnpOverLanes(I, Data(c.d), c.lc, c.lo)
      [] c.op = "snp.extl" -> SnpExtLanes(I, c.lc, c.lo)
      [] c.op = "snp.extaddl" -> SnpExtAddLanes(I, Data(c.d), c.lc, c.lo)
      [] c.op = "snp.fast" -> SnpFast(I, c.nr, Data(c.d), c.lc, c.lo, c.ls)
SnpInv(I) == SnpTypeOK(I)
=============================================================================
