------------------------------ MODULE KeccakP ------------------------------
(* Keccak-p[25w, nr] as in FIPS 202, section 3, on bit arrays a[64(5y+x)+z]. *)
EXTENDS Bytes, Integers, TLC

KBits(s) == TLCEval([i \in 0..(8 * Len(s) - 1) |-> (s[(i \div 8) + 1] \div Pow2(i % 8)) % 2])
RECURSIVE SumBits(_, _, _)
SumBits(a, base, k) == IF k = 8 THEN 0 ELSE a[base + k] * Pow2(k) + SumBits(a, base, k + 1)
KBytes(a, n) == TLCEval([i \in 1..n |-> SumBits(a, 8 * (i - 1), 0)])

X2(a, b) == (a + b) % 2

KTheta(a, w) ==
    LET C == TLCEval([i \in 0..(5 * w - 1) |->
                LET x == i \div w  z == i % w IN
                (a[w*x + z] + a[w*(5+x) + z] + a[w*(10+x) + z] + a[w*(15+x) + z] + a[w*(20+x) + z]) % 2])
        D == TLCEval([i \in 0..(5 * w - 1) |->
                LET x == i \div w  z == i % w IN
                X2(C[w * ((x + 4) % 5) + z], C[w * ((x + 1) % 5) + ((z + w - 1) % w)])])
    IN  TLCEval([i \in 0..(25 * w - 1) |-> LET x == (i \div w) % 5  z == i % w IN X2(a[i], D[w * x + z])])

(* rho offsets: lane (0,0) is 0; t-th lane of the walk (x,y) -> (y, 2x+3y) from (1,0) gets (t+1)(t+2)/2 *)
RECURSIVE RhoWalk(_, _, _, _)
RhoWalk(x, y, t, off) ==
    IF t = 24 THEN off
    ELSE RhoWalk(y, (2 * x + 3 * y) % 5, t + 1, [off EXCEPT ![x + 5 * y] = ((t + 1) * (t + 2)) \div 2])
RhoOffset == RhoWalk(1, 0, 0, [i \in 0..24 |-> 0])

KRho(a, w) ==
    TLCEval([i \in 0..(25 * w - 1) |->
        LET l == i \div w  z == i % w IN a[w * l + ((z + w * 8 - (RhoOffset[l] % w)) % w)]])
(* A'[x,y,z] = A[(x+3y) mod 5, x, z] *)
KPi(a, w) ==
    TLCEval([i \in 0..(25 * w - 1) |->
        LET x == (i \div w) % 5  y == (i \div w) \div 5  z == i % w
        IN  a[w * (5 * x + ((x + 3 * y) % 5)) + z]])
KChi(a, w) ==
    TLCEval([i \in 0..(25 * w - 1) |->
        LET x == (i \div w) % 5  y == (i \div w) \div 5  z == i % w
        IN  X2(a[i], (1 - a[w * (5 * y + ((x + 1) % 5)) + z]) * a[w * (5 * y + ((x + 2) % 5)) + z])])
(* rc(t), FIPS 202 algorithm 5 *)
RECURSIVE RcReg(_)
RcReg(t) ==
    IF t = 0 THEN <<1, 0, 0, 0, 0, 0, 0, 0>>
    ELSE LET R == <<0>> \o RcReg(t - 1)
             S == [R EXCEPT ![1] = X2(R[1], R[9]), ![5] = X2(R[5], R[9]), ![6] = X2(R[6], R[9]), ![7] = X2(R[7], R[9])]
         IN  SubSeq(S, 1, 8)
Rc(t) == RcReg(t % 255)[1]
KIota(a, w, l, ir) ==
    LET RCz == [z \in 0..(w - 1) |-> IF \E j \in 0..l : z = Pow2(j) - 1 /\ Rc(j + 7 * ir) = 1 THEN 1 ELSE 0]
    IN  TLCEval([i \in 0..(25 * w - 1) |-> IF i < w THEN X2(a[i], RCz[i]) ELSE a[i]])
KRound(a, w, l, ir) == KIota(KChi(KPi(KRho(KTheta(a, w), w), w), w), w, l, ir)
RECURSIVE KRounds(_, _, _, _, _)
KRounds(a, w, l, ir, last) == IF ir > last THEN a ELSE KRounds(KRound(a, w, l, ir), w, l, ir + 1, last)
(* rounds 12 + 2l - nr .. 12 + 2l - 1 *)
KeccakPBits(a, w, l, nr) == KRounds(a, w, l, 12 + 2 * l - nr, 12 + 2 * l - 1)

KeccakP(nr, s) == KBytes(KeccakPBits(KBits(s), 64, 6, nr), 200)         \* (J)

(* s after absorbing the whole blocks of `data`: XOR a block, permute *)
RECURSIVE KAbsorbBlocks(_, _, _, _)
KAbsorbBlocks(nr, s, rb, data) ==                                       \* (J)
    IF Len(data) < rb THEN s
    ELSE KAbsorbBlocks(nr, KeccakP(nr, CXorAt(s, 0, Slice(data, 0, rb))), rb, Slice(data, rb, Len(data) - rb))
(* count blocks of the periodic string data data data ... *)
RECURSIVE KAbsorbRepeated(_, _, _, _, _)
KAbsorbRepeated(nr, s, rb, data, count) ==                              \* (J)
    IF count = 0 THEN s
    ELSE LET blk == [k \in 1..rb |-> data[((k - 1) % Len(data)) + 1]]
             rot == rb % Len(data)
         IN  KAbsorbRepeated(nr, KeccakP(nr, CXorAt(s, 0, blk)), rb,
                             Slice(data, rot, Len(data) - rot) \o Slice(data, 0, rot), count - 1)
=============================================================================
