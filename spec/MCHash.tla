------------------------------- MODULE MCHash ------------------------------
(* Exhaustive: all splits of messages of up to MaxN bits, all suffixes.       *)
EXTENDS KeccakHash, SymPrim, TLC, FiniteSets
CONSTANTS MaxN, MaxO, Delims, Fixed
VARIABLES I, last
vars == <<I, last>>
Init == \E rb \in 1..SymWidth, d \in Delims, f \in Fixed : I = KhNew(rb, f, d) /\ last = 0
Do(r) == I' = r.i /\ last' = r.e.rc
Update == /\ I.n % 8 = 0
          /\ \E n \in 0..MaxN : I.n + n <= MaxN /\ Do(KhCallUpdate(I, SData([s |-> 1, o |-> I.n \div 8, n |-> CeilDiv(n, 8)]), n))
Final == Do(KhCallFinal(I))
Squeeze == I.sp.sq /\ \E n \in {0, 8, 13, 16, 24} : Len(I.o) + (n \div 8) <= MaxO /\ Do(KhCallSqueeze(I, n))
Next == Update \/ Final \/ Squeeze
Spec == Init /\ [][Next]_vars
Inv == KhInv(I)
Refused == [][(last' = 1) => I' = I]_vars
(* different (bit string, suffix) pairs never give the same blocks *)
Bits == UNION {[1..n -> {0, 1}] : n \in 0..5} \cup {[i \in 1..n |-> i % 2] : n \in 6..18}
ToBytes(b) == [k \in 1..CeilDiv(Len(b), 8) |->
    {<<p, <<0, 0, 0>>>> : p \in {q \in 0..7 : 8 * (k - 1) + q < Len(b) /\ b[8 * (k - 1) + q + 1] = 1}}]
PadInjective ==
    \A rb \in 1..2 :
        LET P == {<<b, d>> : b \in Bits, d \in {1, 2, 6, 31, 128}}
            (* message bits and suffix bits together determine the input *)
            Val(x) == x[1] \o [i \in 1..SuffixBits(x[2]) |-> (x[2] \div 2^(i - 1)) % 2]
        IN  Cardinality({PaddedBits(ToBytes(x[1]), Len(x[1]), x[2], rb) : x \in P}) = Cardinality({Val(x) : x \in P})
ASSUME PadInjective
=============================================================================
