------------------------------ MODULE GenCompact ---------------------------
(* Calls of the standalone implementations: each is a function of its         *)
(* arguments.  What it returns is computed by the procedure of module Compact; *)
(* the invariant compares that with the definition of the standard.           *)
EXTENDS Compact, KeccakHash, ConPrim, GenLib, GenMachine
CONSTANT What           \* "keccak", "fn" or "k12"
CoInst(ok) == [ty |-> "co", ok |-> ok]
RatePick(r, k) == IF Pct(r, k, 45) THEN PickSeq(r, k + 1, <<1344, 1088, 1152, 832, 576>>) ELSE IF Pct(r, k, 65) THEN PickSeq(r, k + 1, <<8, 16, 64, 1600, 1592, 72>>)
                  ELSE 8 * (1 + Draw(r, k + 2, 200))
Rem(r, k) == IF Pct(r, k, 5) THEN 0 ELSE Draw(r, k + 1, 20000)
CoDelim(r, k) == IF Pct(r, k, 60) THEN PickSeq(r, k + 1, <<1, 6, 31, 128, 129, 139, 192, 255, 127, 4>>) ELSE 1 + Draw(r, k + 2, 255)
Blk(r, k, rb) == IF Pct(r, k, 20) THEN (rb * (1 + Draw(r, k + 1, 4))) - 1 ELSE PickLen(r, k + 2, rb, rb)     \* so that the padding begins in the last byte
ChunkLen(r, k, less) ==
    LET c == Draw(r, k, 10)  q == 1 + Draw(r, k + 1, 4)  b == Chunk * q IN
    CASE c < 4 -> PickLen(r, k + 2, 168, 168)
      [] c = 4 -> b - less
      [] c = 5 -> (b - less) + 1
      [] c = 6 -> (b - less) - 1
      [] c = 7 -> b
      [] c = 8 -> (b - less) + Draw(r, k + 2, 500)
      [] OTHER -> Draw(r, k + 2, b)
CoChoose(b, I, r, final) ==
    CASE What = "keccak" ->
           LET rate == RatePick(r, 1)  rb == rate \div 8
           IN  [op |-> "co.keccak", rate |-> rate, cap |-> 1600 - rate, d |-> PickData(r, 20, Blk(r, 10, rb)), delim |-> CoDelim(r, 30), n |-> PickLen(r, 40, rb, rb)]
      [] What = "fn" ->
           LET f == 1 + Draw(r, 1, 6)  rb == FipsF[f].rb
           IN  [op |-> "co.fn", f |-> f, d |-> PickData(r, 20, Blk(r, 10, rb)), n |-> IF FipsF[f].n = 0 THEN PickLen(r, 40, rb, rb) ELSE FipsF[f].n]
      [] OTHER ->
           LET cl == IF Pct(r, 1, 40) THEN 0 ELSE IF Pct(r, 2, 40) THEN PickSeq(r, 3, <<1, 255, 256, 257, 8188, 8189, 8190, 8191, 8192>>) ELSE ChunkLen(r, 60, 2)
           IN  [op |-> "co.k12", d |-> PickData(r, 20, ChunkLen(r, 30, (cl + Len(KNat(cl)) + 1) % Chunk)), c |-> PickData(r, 50, cl), l |-> IF Pct(r, 4, 3) THEN 0 ELSE 1 + PickLen(r, 70, 168, 168)]
CoRes(a, b) == [i |-> CoInst(a = b), e |-> [rc |-> 0, out |-> a]]
CoApply(I, c) ==
    CASE c.op = "co.keccak" -> CoRes(CoKeccak(c.rate \div 8, Data(c.d), c.delim, c.n), SpongeFn(24, c.rate \div 8, Data(c.d), c.delim, c.n))
      [] c.op = "co.fn" -> CoRes(TwKeccak(FipsF[c.f].rb, Data(c.d), FipsF[c.f].d, c.n), FipsFn(c.f, Data(c.d), c.n))
      [] c.op = "co.k12" -> CoRes(RuKT(168, Data(c.d), Data(c.c), c.l), KtFn(168, Data(c.d), Data(c.c), c.l))
CoInv(I) == I.ok
=============================================================================
